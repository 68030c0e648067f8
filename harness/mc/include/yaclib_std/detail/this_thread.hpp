#pragma once

#include <mc.hpp>
#include <yaclib_std/chrono>

#include <thread>

namespace yaclib_std::this_thread {

template <typename Rep, typename Period>
void sleep_for(const std::chrono::duration<Rep, Period>& d) {
  auto ns = std::chrono::ceil<std::chrono::nanoseconds>(d).count();
  mc::SleepUntil(mc::Now() + (ns > 0 ? static_cast<mc::u64>(ns) : 0));
}

template <typename Clock, typename Duration>
void sleep_until(const std::chrono::time_point<Clock, Duration>& tp) {
  sleep_for(tp - Clock::now());
}

inline void yield() noexcept {
  mc::Point("yield");
}

inline mc::u32 get_id() noexcept {
  return mc::Self();
}

}  // namespace yaclib_std::this_thread
