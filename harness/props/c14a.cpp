#include "c14.hpp"

MC_SCENARIO(c14_mutex_a, "C14", 1) {
  Program<false, false>();
}
