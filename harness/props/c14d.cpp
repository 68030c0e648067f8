#include "c14.hpp"

MC_SCENARIO(c14_mutex_d, "C14", 1) {
  Program<true, true>();
}
