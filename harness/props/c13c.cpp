#include "c13.hpp"

MC_SCENARIO(c13_coroutine_sharedfuture, "C13", 1) {
  Program<SharedFuture<Val, Err>>();
}
