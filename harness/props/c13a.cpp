#include "c13.hpp"

MC_SCENARIO(c13_coroutine_future, "C13", 1) {
  Program<Future<Val, Err>>();
}
