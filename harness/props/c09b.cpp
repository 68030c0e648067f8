#include "when.hpp"

MC_SCENARIO(c09_all_none, "C09", 3) {
  if (PB()) {
    return VarSame<kAll, kN>();
  }
  IterAny<kAll, kN>();
}
