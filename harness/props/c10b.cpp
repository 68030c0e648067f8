#include "when.hpp"

MC_SCENARIO(c10_any_first_fail, "C10", 4) {
  switch (P(3)) {
    case 0:
      return IterAny<kAny, kF>();
    case 1:
      return VarSame<kAny, kF>();
    default:
      return AnyMixed<kF>();
  }
}
