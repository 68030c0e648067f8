#pragma once

#include <yaclib_std/detail/atomic.hpp>

namespace yaclib_std {

class atomic_flag {
 public:
  constexpr atomic_flag() noexcept = default;
  atomic_flag(const atomic_flag&) = delete;
  atomic_flag& operator=(const atomic_flag&) = delete;
  void clear(std::memory_order o = std::memory_order_seq_cst) noexcept {
    _v.store(false, o);
  }
  bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept {
    return _v.exchange(true, o);
  }
  bool test(std::memory_order o = std::memory_order_seq_cst) const noexcept {
    return _v.load(o);
  }
  void wait(bool old, std::memory_order o = std::memory_order_seq_cst) const noexcept {
    _v.wait(old, o);
  }
  void notify_one() noexcept {
    _v.notify_one();
  }
  void notify_all() noexcept {
    _v.notify_all();
  }

 private:
  atomic<bool> _v{false};
};

}  // namespace yaclib_std
