#include "when.hpp"

MC_SCENARIO(c09_all_first_fail, "C09", 4) {
  if (PB()) {
    return VarSame<kAll, kF>();
  }
  IterAny<kAll, kF>();
}
