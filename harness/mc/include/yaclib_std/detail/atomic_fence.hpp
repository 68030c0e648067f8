#pragma once

#include <mc.hpp>

#include <atomic>

namespace yaclib_std {

inline void atomic_thread_fence(std::memory_order order) noexcept {
  mc::Fence(static_cast<int>(order));
}

inline void atomic_signal_fence(std::memory_order /*order*/) noexcept {
}

}  // namespace yaclib_std
