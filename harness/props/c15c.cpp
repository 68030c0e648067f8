#include "c15.hpp"

MC_SCENARIO(c15_shared_mutex_c, "C15", 1) {
  Program<false, false>();
}
