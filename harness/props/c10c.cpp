#include "when.hpp"

MC_SCENARIO(c10_any_none, "C10", 3) {
  switch (P(3)) {
    case 0:
      return IterAny<kAny, kN>();
    case 1:
      return VarSame<kAny, kN>();
    default:
      return AnyMixed<kN>();
  }
}
