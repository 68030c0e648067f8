#pragma once

#include <mc.hpp>

#include <mutex>

namespace yaclib_std {

class mutex {
 public:
  constexpr mutex() noexcept = default;
  mutex(const mutex&) = delete;
  mutex& operator=(const mutex&) = delete;
  ~mutex() noexcept {
    if (_locked) {
      mc::Fail("", "mutex destroyed while locked");
    }
    _witness = 0;
  }
  void lock() {
    mc::Point("lock", this);
    Acquire();
  }
  bool try_lock() {
    mc::Point("try_lock", this);
    if (Locked()) {
      return false;
    }
    SetLocked(true);
    mc::HbAcquire(this);
    _witness = 1;
    return true;
  }
  void unlock() {
    mc::Point("unlock", this);
    UnlockNoPoint();
  }

  // for condition_variable
  void UnlockNoPoint() {
    if (!Locked()) {
      mc::Fail("", "unlock of a mutex that is not locked");
    }
    _witness = 2;
    mc::HbRelease(this);
    SetLocked(false);
    mc::WakeAll(this);
  }
  void Acquire() {
    while (Locked()) {
      mc::Block("lock", this);
    }
    SetLocked(true);
    mc::HbAcquire(this);
    _witness = 1;
  }

 private:
  // Run-time internals: not visible to ThreadSanitizer (but to AddressSanitizer)
  __attribute__((no_sanitize("thread"), noinline)) bool Locked() const noexcept {
    return _locked;
  }
  __attribute__((no_sanitize("thread"), noinline)) void SetLocked(bool v) noexcept {
    _locked = v;
  }
  bool _locked = false;
  int _witness = 0;
};

}  // namespace yaclib_std
