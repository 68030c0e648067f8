#include "c13.hpp"

MC_SCENARIO(c13_coroutine_task, "C13", 1) {
  Program<Task<Val, Err>>();
}
