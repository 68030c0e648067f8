#include "c14.hpp"

MC_SCENARIO(c14_mutex_c, "C14", 1) {
  Program<true, false>();
}
