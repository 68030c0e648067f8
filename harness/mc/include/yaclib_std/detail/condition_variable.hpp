#pragma once

#include <yaclib_std/detail/mutex.hpp>

#include <chrono>
#include <condition_variable>

namespace yaclib_std {

class condition_variable {
 public:
  condition_variable() noexcept = default;
  condition_variable(const condition_variable&) = delete;
  condition_variable& operator=(const condition_variable&) = delete;
  ~condition_variable() noexcept {
    _witness = 1;
  }

  void notify_one() noexcept {
    mc::Point("notify_one", this);
    Touch();
    mc::WakeOne(this);
  }
  void notify_all() noexcept {
    mc::Point("notify_all", this);
    Touch();
    mc::WakeAll(this);
  }

  void wait(std::unique_lock<mutex>& lock) {
    WaitNs(lock, mc::kNoDeadline);
  }
  template <typename Pred>
  void wait(std::unique_lock<mutex>& lock, Pred pred) {
    while (!pred()) {
      wait(lock);
    }
  }
  template <typename Clock, typename Duration>
  std::cv_status wait_until(std::unique_lock<mutex>& lock, const std::chrono::time_point<Clock, Duration>& tp) {
    return WaitNs(lock, Deadline(tp)) ? std::cv_status::no_timeout : std::cv_status::timeout;
  }
  template <typename Clock, typename Duration, typename Pred>
  bool wait_until(std::unique_lock<mutex>& lock, const std::chrono::time_point<Clock, Duration>& tp, Pred pred) {
    while (!pred()) {
      if (wait_until(lock, tp) == std::cv_status::timeout) {
        return pred();
      }
    }
    return true;
  }
  template <typename Rep, typename Period>
  std::cv_status wait_for(std::unique_lock<mutex>& lock, const std::chrono::duration<Rep, Period>& d) {
    return wait_until(lock, std::chrono::steady_clock::now() + Ceil(d));
  }
  template <typename Rep, typename Period, typename Pred>
  bool wait_for(std::unique_lock<mutex>& lock, const std::chrono::duration<Rep, Period>& d, Pred pred) {
    return wait_until(lock, std::chrono::steady_clock::now() + Ceil(d), std::move(pred));
  }

 private:
  template <typename Rep, typename Period>
  static std::chrono::nanoseconds Ceil(const std::chrono::duration<Rep, Period>& d) {
    return std::chrono::ceil<std::chrono::nanoseconds>(d);
  }
  template <typename Clock, typename Duration>
  static mc::u64 Deadline(const std::chrono::time_point<Clock, Duration>& tp) {
    auto now = Clock::now();
    if (tp <= now) {
      return mc::Now();
    }
    return mc::Now() + static_cast<mc::u64>(Ceil(tp - now).count());
  }
  void Touch() const noexcept {
    [[maybe_unused]] volatile int x = _witness;
  }
  bool WaitNs(std::unique_lock<mutex>& lock, mc::u64 deadline) {
    mc::Point("cv_wait", this);
    Touch();
    auto* m = lock.mutex();
    m->UnlockNoPoint();
    if (mc::Spurious()) {
      // spurious wake-up: allowed by the standard
      mc::Point("cv_spurious", this);
      m->Acquire();
      return true;
    }
    bool woken = mc::Block("cv_wait", this, deadline);
    m->Acquire();
    return woken;
  }
  int _witness = 0;
};

}  // namespace yaclib_std
