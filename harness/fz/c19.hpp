// C19: yaclib_std::atomic against std::atomic, operation by operation
#pragma once

#include <mc.hpp>

#include <yaclib/fault/config.hpp>
#include <yaclib/fault/inject.hpp>
#include <yaclib_std/atomic>
#include <yaclib_std/thread>
#if YACLIB_FAULT == 2
#  include <yaclib/fault/detail/fiber/scheduler.hpp>
#endif

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <new>
#include <string>
#include <type_traits>

namespace c19 {

using mc::P;
using mc::PB;

struct Big {
  int a[3];
};

enum class Color : std::uint16_t { kRed, kGreen = 7, kBlue = 65535 };

template <typename T>
std::string Str(T v) {
  char b[64];
  if constexpr (std::is_pointer_v<T>) {
    std::snprintf(b, sizeof(b), "ptr:%llx", static_cast<unsigned long long>(reinterpret_cast<std::uintptr_t>(v)));
  } else if constexpr (std::is_floating_point_v<T>) {
    unsigned long long bits = 0;
    std::memcpy(&bits, &v, sizeof(v));
    std::snprintf(b, sizeof(b), "%g(%llx)", static_cast<double>(v), bits);
  } else if constexpr (std::is_enum_v<T>) {
    std::snprintf(b, sizeof(b), "enum:%u", static_cast<unsigned>(v));
  } else if constexpr (std::is_signed_v<T>) {
    std::snprintf(b, sizeof(b), "%lld", static_cast<long long>(v));
  } else {
    std::snprintf(b, sizeof(b), "%llu", static_cast<unsigned long long>(v));
  }
  return b;
}

template <typename T>
bool SameBits(T a, T b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}

// arithmetic may give NaNs with different payloads
template <typename T>
bool SameNumber(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(a) && std::isnan(b)) {
      return true;
    }
  }
  return SameBits(a, b);
}

inline Big g_array[64];

template <typename T>
T Value() {
  if constexpr (std::is_same_v<T, bool>) {
    return PB();
  } else if constexpr (std::is_enum_v<T>) {
    static constexpr T kValues[] = {T{}, Color::kGreen, Color::kBlue};
    return kValues[P(3)];
  } else if constexpr (std::is_pointer_v<T>) {
    using U = std::remove_pointer_t<T>;
    const auto i = P(5);
    if (i == 0) {
      return nullptr;
    }
    if constexpr (std::is_void_v<U>) {
      return g_array + i;
    } else {
      return reinterpret_cast<T>(g_array) + static_cast<int>(i) * 3;
    }
  } else if constexpr (std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    switch (P(14)) {
      case 0:
        return T(0);
      case 1:
        return T(1);
      case 2:
        return -T(0);
      case 3:
        return T(-1.5);
      case 4:
        return L::max();
      case 5:
        return L::lowest();
      case 6:
        return L::min();
      case 7:
        return L::denorm_min();
      case 8:
        return L::infinity();
      case 9:
        return -L::infinity();
      case 10:
        return L::quiet_NaN();
      case 11: {
        T v = L::quiet_NaN();
        unsigned char* c = reinterpret_cast<unsigned char*>(&v);
        c[0] = 5;  // another payload
        return v;
      }
      case 12:
        return T(0.1);
      default:
        return static_cast<T>(P(1000)) / 7;
    }
  } else {
    using L = std::numeric_limits<T>;
    switch (P(10)) {
      case 0:
        return T(0);
      case 1:
        return T(1);
      case 2:
        return T(-1);
      case 3:
        return L::max();
      case 4:
        return L::min();
      case 5:
        return static_cast<T>(L::max() - 1);
      case 6:
        return static_cast<T>(L::min() + 1);
      case 7:
        return static_cast<T>(std::uint64_t{1} << P(sizeof(T) * 8));
      case 8:
        return static_cast<T>(P(256));
      default:
        return static_cast<T>((std::uint64_t{P(1U << 31)} << 33) ^ P(1U << 31));
    }
  }
}

inline std::memory_order LoadOrder() {
  static constexpr std::memory_order k[] = {std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_acquire,
                                            std::memory_order_consume};
  return k[P(4)];
}
inline std::memory_order StoreOrder() {
  static constexpr std::memory_order k[] = {std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_release};
  return k[P(3)];
}
inline std::memory_order AnyOrder() {
  static constexpr std::memory_order k[] = {std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_acquire,
                                            std::memory_order_release, std::memory_order_acq_rel, std::memory_order_consume};
  return k[P(6)];
}

enum Kind {
  kLoad,
  kConvert,
  kStore,
  kExchange,
  kWeak2,
  kWeak1,
  kStrong2,
  kStrong1,
  kAssign,
  kFence,
  kFetchAdd,
  kFetchSub,
  kAddAssign,
  kSubAssign,
  kPreInc,
  kPostInc,
  kPreDec,
  kPostDec,
  kFetchAnd,
  kFetchOr,
  kFetchXor,
  kAndAssign,
  kOrAssign,
  kXorAssign,
  kKinds,
};

inline const char* const kNames[] = {"load", "operator T", "store", "exchange", "compare_exchange_weak(s,f)",
                              "compare_exchange_weak(o)", "compare_exchange_strong(s,f)", "compare_exchange_strong(o)",
                              "operator=", "fence", "fetch_add", "fetch_sub", "operator+=", "operator-=", "++a", "a++",
                              "--a", "a--", "fetch_and", "fetch_or", "fetch_xor", "operator&=", "operator|=",
                              "operator^="};

// a: (volatile) yaclib_std::atomic<T>; r: (volatile) std::atomic<T>
template <typename T, typename Y, typename R>
bool Step(Kind kind, Y& a, R& r, bool defaults, std::uint32_t fail_freq, bool& arithmetic, std::string& what) {
  constexpr bool kInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;
  constexpr bool kPtr = std::is_pointer_v<T> && !std::is_void_v<std::remove_pointer_t<T>>;
  constexpr bool kArith = kInt || kPtr || std::is_floating_point_v<T>;
  arithmetic = false;
  auto same = [&](T x, T y, bool number = false) {
    MC_CHECK(number ? SameNumber(x, y) : SameBits(x, y), "%s returned %s, std::atomic returns %s", what.c_str(),
             Str(x).c_str(), Str(y).c_str());
  };
  what = kNames[kind];
  if (std::is_volatile_v<Y>) {
    what += " volatile";
  }
  switch (kind) {
    case kLoad: {
      const Y& c = a;
      if (defaults) {
        same(c.load(), r.load());
      } else {
        auto o = LoadOrder();
        same(c.load(o), r.load(o));
      }
      return true;
    }
    case kConvert: {
      const Y& c = a;
      const R& d = r;
      T x = c;
      T y = d;
      same(x, y);
      return true;
    }
    case kStore: {
      T v = Value<T>();
      what += "(" + Str(v) + ")";
      if (defaults) {
        a.store(v);
        r.store(v);
      } else {
        auto o = StoreOrder();
        a.store(v, o);
        r.store(v, o);
      }
      return true;
    }
    case kAssign: {
      T v = Value<T>();
      what += "(" + Str(v) + ")";
      same(a = v, r = v);
      return true;
    }
    case kExchange: {
      T v = Value<T>();
      what += "(" + Str(v) + ")";
      if (defaults) {
        same(a.exchange(v), r.exchange(v));
      } else {
        auto o = AnyOrder();
        same(a.exchange(v, o), r.exchange(v, o));
      }
      return true;
    }
    case kWeak2:
    case kWeak1:
    case kStrong2:
    case kStrong1: {
      // half of the time the comparison succeeds
      const T before = r.load();
      T expected = PB() ? Value<T>() : before;
      T desired = Value<T>();
      what += "(" + Str(expected) + ", " + Str(desired) + ")";
      T ex = expected, ey = expected;
      bool x = false, y = false;
      const bool weak = kind == kWeak2 || kind == kWeak1;
      if (kind == kWeak2) {
        auto s = AnyOrder();
        auto f = LoadOrder();
        x = a.compare_exchange_weak(ex, desired, s, f);
        if (!x && SameBits(before, expected)) {
          ey = before;
        } else {
          y = r.compare_exchange_strong(ey, desired, s, f);
        }
      } else if (kind == kStrong2) {
        auto s = AnyOrder();
        auto f = LoadOrder();
        x = a.compare_exchange_strong(ex, desired, s, f);
        y = r.compare_exchange_strong(ey, desired, s, f);
      } else {
        auto s = AnyOrder();
        if (weak) {
          x = defaults ? a.compare_exchange_weak(ex, desired) : a.compare_exchange_weak(ex, desired, s);
          if (!x && SameBits(before, expected)) {
            ey = before;
          } else {
            y = r.compare_exchange_strong(ey, desired, s);
          }
        } else {
          x = defaults ? a.compare_exchange_strong(ex, desired) : a.compare_exchange_strong(ex, desired, s);
          y = r.compare_exchange_strong(ey, desired, s);
        }
      }
      if (weak && !x && SameBits(before, expected)) {
        mc::Label("spurious failure");
        MC_CHECK(fail_freq != 0, "%s failed spuriously although spurious failures are switched off", what.c_str());
      }
      MC_CHECK(x == y, "%s returned %d, std::atomic returns %d (the stored value was %s)", what.c_str(), x, y,
               Str(before).c_str());
      MC_CHECK(SameBits(ex, ey), "%s left %s in expected, std::atomic leaves %s (the stored value was %s)", what.c_str(),
               Str(ex).c_str(), Str(ey).c_str(), Str(before).c_str());
      return true;
    }
    case kFence: {
      auto o = AnyOrder();
      if (PB()) {
        yaclib_std::atomic_thread_fence(o);
      } else {
        yaclib_std::atomic_signal_fence(o);
      }
      return true;
    }
    default:
      break;
  }
  if constexpr (kArith) {
    using Arg = std::conditional_t<kPtr, std::ptrdiff_t, T>;
    Arg v{};
    if constexpr (kPtr) {
      // stay inside of the array
      using U = std::remove_pointer_t<T>;
      constexpr auto kLen = static_cast<std::ptrdiff_t>(sizeof(g_array) / sizeof(U));
      T now = r.load();
      if (now == nullptr) {
        return false;
      }
      const auto at = now - reinterpret_cast<T>(g_array);
      const auto to = static_cast<std::ptrdiff_t>(P(static_cast<std::uint32_t>(kLen + 1)));
      switch (kind) {
        case kFetchAdd:
        case kAddAssign:
          v = to - at;
          break;
        case kFetchSub:
        case kSubAssign:
          v = at - to;
          break;
        case kPreInc:
        case kPostInc:
          if (at >= kLen) {
            return false;
          }
          break;
        case kPreDec:
        case kPostDec:
          if (at <= 0) {
            return false;
          }
          break;
        default:
          return false;
      }
    } else {
      v = Value<T>();
    }
    arithmetic = true;
    const bool n = true;
    if constexpr (kPtr) {
      what += "(" + Str<long long>(v) + ")";
    } else {
      what += "(" + Str(v) + ")";
    }
    auto o = AnyOrder();
    switch (kind) {
      case kFetchAdd:
        defaults ? same(a.fetch_add(v), r.fetch_add(v), n) : same(a.fetch_add(v, o), r.fetch_add(v, o), n);
        return true;
      case kFetchSub:
        defaults ? same(a.fetch_sub(v), r.fetch_sub(v), n) : same(a.fetch_sub(v, o), r.fetch_sub(v, o), n);
        return true;
      case kAddAssign:
        same(a += v, r += v, n);
        return true;
      case kSubAssign:
        same(a -= v, r -= v, n);
        return true;
      default:
        break;
    }
    if constexpr (kInt || kPtr) {
      switch (kind) {
        case kPreInc:
          same(++a, ++r);
          return true;
        case kPostInc:
          same(a++, r++);
          return true;
        case kPreDec:
          same(--a, --r);
          return true;
        case kPostDec:
          same(a--, r--);
          return true;
        default:
          break;
      }
    }
    if constexpr (kInt) {
      switch (kind) {
        case kFetchAnd:
          defaults ? same(a.fetch_and(v), r.fetch_and(v)) : same(a.fetch_and(v, o), r.fetch_and(v, o));
          return true;
        case kFetchOr:
          defaults ? same(a.fetch_or(v), r.fetch_or(v)) : same(a.fetch_or(v, o), r.fetch_or(v, o));
          return true;
        case kFetchXor:
          defaults ? same(a.fetch_xor(v), r.fetch_xor(v)) : same(a.fetch_xor(v, o), r.fetch_xor(v, o));
          return true;
        case kAndAssign:
          same(a &= v, r &= v);
          return true;
        case kOrAssign:
          same(a |= v, r |= v);
          return true;
        case kXorAssign:
          same(a ^= v, r ^= v);
          return true;
        default:
          break;
      }
    }
  }
  return false;
}

template <typename F>
void InThread(bool fiber, F&& f) {
#if YACLIB_FAULT == 2
  if (fiber) {
    yaclib::fault::Scheduler scheduler;
    yaclib::fault::Scheduler::Set(&scheduler);
    bool done = false;
    yaclib_std::thread t([&] {
      f();
      done = true;
    });
    MC_CHECK(done, "the only fiber did not finish");
    t.join();
    yaclib::fault::Scheduler::Set(nullptr);
    return;
  }
#endif
  f();
}

inline std::uint32_t Config() {
  static constexpr std::uint32_t kFail[] = {0, 2, 1, 3, 13};
  static constexpr std::uint32_t kFreq[] = {16, 1, 2, 1000000};
  const auto fail = kFail[P(5)];
  yaclib::SetAtomicFailFrequency(fail);
#if YACLIB_FAULT == 2
  yaclib::SetFaultFrequency(kFreq[P(4)]);
#else
  // a thread that is interrupted sleeps
  yaclib::SetFaultFrequency(P(16) == 1 ? 16 : 1000000000);
  (void)kFreq;
#endif
  yaclib::SetFaultSleepTime(1 + P(100));
  yaclib::SetSeed(mc::S(1U << 31));
  yaclib::fiber::SetInjectorState(0);
  mc::Describe("fail=%u ", fail);
  return fail;
}

template <typename T>
void Run(const char* type) {
  mc::Describe("atomic<%s> ", type);
  mc::Label(type);
  const auto fail = Config();
  const bool fiber = PB();
  InThread(fiber, [&] {
    using Y = yaclib_std::atomic<T>;
    using R = std::atomic<T>;
    alignas(64) unsigned char ybuf[sizeof(Y)];
    alignas(64) unsigned char rbuf[sizeof(R)];
    std::memset(ybuf, 0xA5, sizeof(ybuf));
    std::memset(rbuf, 0xA5, sizeof(rbuf));
    Y* y;
    R* r;
    if (PB()) {
      y = new (ybuf) Y;
      r = new (rbuf) R;
      mc::Describe("default; ");
    } else {
      T v = Value<T>();
      y = new (ybuf) Y{v};
      r = new (rbuf) R{v};
      mc::Describe("(%s); ", Str(v).c_str());
    }
    auto stored = [&](const std::string& what, bool arithmetic) {
      T x = y->load(std::memory_order_relaxed);
      T z = r->load(std::memory_order_relaxed);
      MC_CHECK(arithmetic ? SameNumber(x, z) : SameBits(x, z), "after %s %s is stored, in std::atomic %s", what.c_str(),
               Str(x).c_str(), Str(z).c_str());
      if (!SameBits(x, z)) {  // NaNs
        y->store(T{});
        r->store(T{});
      }
    };
    stored("construction", false);
    const auto n = 1 + P(14);
    unsigned ran = 0, rmw = 0;
    for (unsigned i = 0; i != n; ++i) {
      const auto kind = static_cast<Kind>(P(kKinds));
      const bool vol = PB();
      const bool defaults = PB();
      bool arithmetic = false;
      std::string what;
      const bool did = vol ? Step<T>(kind, const_cast<volatile Y&>(*y), const_cast<volatile R&>(*r), defaults, fail, arithmetic, what)
                           : Step<T>(kind, *y, *r, defaults, fail, arithmetic, what);
      if (!did) {
        continue;
      }
      mc::Log("%s", what.c_str());
      mc::Describe("%s; ", what.c_str());
      ++ran;
      rmw += kind >= kExchange && kind != kFence;
      stored(what, arithmetic);
    }
    if (ran >= 2 && rmw >= 1) {
      mc::NonTrivial();
    }
    r->~R();
    y->~Y();
  });
}

}  // namespace c19
