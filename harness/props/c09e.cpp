#include "when.hpp"

MC_SCENARIO(c09_join_none, "C09", 2) {
  switch (P(3)) {
    case 0:
      return IterAny<kJoin, kN>();
    case 1:
      return VarSame<kJoin, kN>();
    default:
      return JoinMixed<kN>();
  }
}
