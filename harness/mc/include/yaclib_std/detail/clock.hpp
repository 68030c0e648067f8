#pragma once

#include <chrono>

// std::chrono::{steady,system}_clock::now() are replaced by the run-time with the virtual clock
namespace yaclib_std::chrono {

using system_clock = std::chrono::system_clock;
using steady_clock = std::chrono::steady_clock;
using high_resolution_clock = std::chrono::high_resolution_clock;

}  // namespace yaclib_std::chrono
