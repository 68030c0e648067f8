#include "c19.hpp"

using mc::P;
using mc::PB;

MC_SCENARIO(atomic_other, "C19", 4) {
  switch (P(7)) {
    case 0:
      return c19::Run<bool>("bool");
    case 1:
      return c19::Run<int*>("int*");
    case 2:
      return c19::Run<c19::Big*>("Big*");
    case 3:
      return c19::Run<const char*>("const char*");
    case 4:
      return c19::Run<void*>("void*");
    default:
      return c19::Run<c19::Color>("enum");
  }
}

MC_SCENARIO(atomic_floating, "C19", 3) {
  return PB() ? c19::Run<double>("double") : c19::Run<float>("float");
}

// atomic_flag: test_and_set / clear, volatile and not
MC_SCENARIO(atomic_flag, "C19", 1) {
  c19::Config();
  c19::InThread(PB(), [&] {
    using Y = yaclib_std::atomic_flag;
    alignas(64) unsigned char buf[sizeof(Y)];
    std::memset(buf, 0xA5, sizeof(buf));
    Y* y = new (buf) Y;
    volatile Y* v = y;
    std::atomic_flag r;
    const auto n = 1 + P(12);
    for (unsigned i = 0; i != n; ++i) {
      const bool vol = PB();
      const bool defaults = PB();
      if (P(3) != 0) {
        auto o = c19::AnyOrder();
        bool x = vol ? (defaults ? v->test_and_set() : v->test_and_set(o)) : (defaults ? y->test_and_set() : y->test_and_set(o));
        bool z = r.test_and_set();
        mc::Describe("test_and_set=%d ", z);
        MC_CHECK(x == z, "test_and_set returned %d, std::atomic_flag returns %d (operation %u)", x, z, i);
      } else {
        auto o = c19::StoreOrder();
        vol ? (defaults ? v->clear() : v->clear(o)) : (defaults ? y->clear() : y->clear(o));
        r.clear();
        mc::Describe("clear ");
      }
      if (P(4) == 1) {
        yaclib_std::atomic_thread_fence(c19::AnyOrder());
        yaclib_std::atomic_signal_fence(c19::AnyOrder());
      }
    }
    if (n > 1) {
      mc::NonTrivial();
    }
    y->~Y();
  });
}
