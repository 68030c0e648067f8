#include "c15.hpp"

MC_SCENARIO(c15_shared_mutex_b, "C15", 1) {
  Program<true, true>();
}
