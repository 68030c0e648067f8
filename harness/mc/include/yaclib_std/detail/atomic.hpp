#pragma once

#include <mc.hpp>

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <type_traits>

namespace yaclib_std {

template <typename T>
class atomic {
  static constexpr bool kInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;
  static constexpr bool kPtr = std::is_pointer_v<T>;
  static constexpr bool kArith = kInt || kPtr || std::is_floating_point_v<T>;
  template <bool Ptr, typename U>
  struct DiffT {
    using type = U;
  };
  template <typename U>
  struct DiffT<true, U> {
    using type = std::ptrdiff_t;
  };

  static constexpr bool Acq(std::memory_order o) noexcept {
    return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst ||
           o == std::memory_order_consume;
  }
  static constexpr bool Rel(std::memory_order o) noexcept {
    return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
  }
  static constexpr std::memory_order FailOrder(std::memory_order o) noexcept {
    return o == std::memory_order_acq_rel   ? std::memory_order_acquire
           : o == std::memory_order_release ? std::memory_order_relaxed
                                            : o;
  }
  void Before(const char* op) const noexcept {
    mc::Point(op, this);
  }
  // in some cases other threads may also run between an operation and the plain accesses that follow it
  static void After() noexcept {
    mc::After();
  }
  void PreWrite(std::memory_order o) const noexcept {
    if (!Rel(o) && mc::ReleaseFenceActive()) {
      mc::HbRelease(&_v);
    }
  }
  void PostRead(std::memory_order o) const noexcept {
    if (!Acq(o)) {
      mc::NoteLoad(&_v, static_cast<int>(o));
    }
  }

 public:
  using value_type = T;
  using difference_type = typename DiffT<kPtr, T>::type;
  static constexpr bool is_always_lock_free = true;

  atomic() noexcept = default;
  constexpr atomic(T desired) noexcept : _v{desired} {
  }
  atomic(const atomic&) = delete;
  atomic& operator=(const atomic&) = delete;

  bool is_lock_free() const noexcept {
    return true;
  }

  void store(T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
    Before("store");
    PreWrite(order);
    _v.store(desired, order);
    After();
  }
  T operator=(T desired) noexcept {
    store(desired);
    return desired;
  }
  T load(std::memory_order order = std::memory_order_seq_cst) const noexcept {
    Before("load");
    T r = _v.load(order);
    PostRead(order);
    After();
    return r;
  }
  operator T() const noexcept {
    return load();
  }
  T exchange(T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
    Before("exchange");
    PreWrite(order);
    T r = _v.exchange(desired, order);
    PostRead(order);
    After();
    return r;
  }
  bool compare_exchange_strong(T& expected, T desired, std::memory_order s, std::memory_order f) noexcept {
    Before("cas");
    PreWrite(s);
    bool ok = _v.compare_exchange_strong(expected, desired, s, f);
    PostRead(ok ? s : f);
    if (ok) {
      After();
    }
    return ok;
  }
  bool compare_exchange_strong(T& expected, T desired,
                               std::memory_order order = std::memory_order_seq_cst) noexcept {
    return compare_exchange_strong(expected, desired, order, FailOrder(order));
  }
  bool compare_exchange_weak(T& expected, T desired, std::memory_order s, std::memory_order f) noexcept {
    Before("weak_cas");
    if (mc::Spurious()) {
      expected = _v.load(f);
      PostRead(f);
      return false;
    }
    PreWrite(s);
    bool ok = _v.compare_exchange_strong(expected, desired, s, f);
    PostRead(ok ? s : f);
    if (ok) {
      After();
    }
    return ok;
  }
  bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
    return compare_exchange_weak(expected, desired, order, FailOrder(order));
  }

#define MC_FETCH(name, req)                                                                        \
  T name(difference_type arg, std::memory_order order = std::memory_order_seq_cst) noexcept        \
    requires(req)                                                                                  \
  {                                                                                                \
    Before(#name);                                                                                 \
    PreWrite(order);                                                                               \
    T r = _v.name(arg, order);                                                                     \
    PostRead(order);                                                                               \
    After();                                                                                       \
    return r;                                                                                      \
  }
  MC_FETCH(fetch_add, kArith)
  MC_FETCH(fetch_sub, kArith)
  MC_FETCH(fetch_and, kInt)
  MC_FETCH(fetch_or, kInt)
  MC_FETCH(fetch_xor, kInt)
#undef MC_FETCH

  T operator++() noexcept
    requires(kInt || kPtr)
  {
    return fetch_add(1) + 1;
  }
  T operator++(int) noexcept
    requires(kInt || kPtr)
  {
    return fetch_add(1);
  }
  T operator--() noexcept
    requires(kInt || kPtr)
  {
    return fetch_sub(1) - 1;
  }
  T operator--(int) noexcept
    requires(kInt || kPtr)
  {
    return fetch_sub(1);
  }
  T operator+=(difference_type arg) noexcept
    requires(kArith)
  {
    return fetch_add(arg) + arg;
  }
  T operator-=(difference_type arg) noexcept
    requires(kArith)
  {
    return fetch_sub(arg) - arg;
  }
  T operator&=(difference_type arg) noexcept
    requires(kInt)
  {
    return fetch_and(arg) & arg;
  }
  T operator|=(difference_type arg) noexcept
    requires(kInt)
  {
    return fetch_or(arg) | arg;
  }
  T operator^=(difference_type arg) noexcept
    requires(kInt)
  {
    return fetch_xor(arg) ^ arg;
  }

  void wait(T old, std::memory_order order = std::memory_order_seq_cst) const noexcept {
    while (true) {
      if (load(order) != old) {
        return;
      }
      mc::Block("atomic_wait", this);
    }
  }
  void notify_one() noexcept {
    Before("notify_one");
    mc::WakeOne(this);
  }
  void notify_all() noexcept {
    Before("notify_all");
    mc::WakeAll(this);
  }

 private:
  std::atomic<T> _v;
};

using atomic_bool = atomic<bool>;
using atomic_char = atomic<char>;
using atomic_schar = atomic<signed char>;
using atomic_uchar = atomic<unsigned char>;
using atomic_short = atomic<short>;
using atomic_ushort = atomic<unsigned short>;
using atomic_int = atomic<int>;
using atomic_uint = atomic<unsigned int>;
using atomic_long = atomic<long>;
using atomic_ulong = atomic<unsigned long>;
using atomic_llong = atomic<long long>;
using atomic_ullong = atomic<unsigned long long>;
using atomic_int8_t = atomic<std::int8_t>;
using atomic_uint8_t = atomic<std::uint8_t>;
using atomic_int16_t = atomic<std::int16_t>;
using atomic_uint16_t = atomic<std::uint16_t>;
using atomic_int32_t = atomic<std::int32_t>;
using atomic_uint32_t = atomic<std::uint32_t>;
using atomic_int64_t = atomic<std::int64_t>;
using atomic_uint64_t = atomic<std::uint64_t>;
using atomic_intptr_t = atomic<std::intptr_t>;
using atomic_uintptr_t = atomic<std::uintptr_t>;
using atomic_size_t = atomic<std::size_t>;
using atomic_ptrdiff_t = atomic<std::ptrdiff_t>;
using atomic_intmax_t = atomic<std::intmax_t>;
using atomic_uintmax_t = atomic<std::uintmax_t>;

}  // namespace yaclib_std
