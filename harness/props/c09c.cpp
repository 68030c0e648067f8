#include "when.hpp"

MC_SCENARIO(c09_all_tuple, "C09", 3) {
  if (PB()) {
    return AllMixed<kN>();
  }
  AllMixed<kF>();
}
