#include "when.hpp"

MC_SCENARIO(c10_any_last_fail, "C10", 4) {
  switch (P(3)) {
    case 0:
      return IterAny<kAny, kL>();
    case 1:
      return VarSame<kAny, kL>();
    default:
      return AnyMixed<kL>();
  }
}
