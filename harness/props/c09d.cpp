#include "when.hpp"

MC_SCENARIO(c09_join_first_fail, "C09", 3) {
  switch (P(3)) {
    case 0:
      return IterAny<kJoin, kF>();
    case 1:
      return VarSame<kJoin, kF>();
    default:
      return JoinMixed<kF>();
  }
}
