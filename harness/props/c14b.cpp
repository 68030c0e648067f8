#include "c14.hpp"

MC_SCENARIO(c14_mutex_b, "C14", 1) {
  Program<false, true>();
}
