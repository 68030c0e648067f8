// what the scenarios on the FIBER backend have in common
#pragma once

#include <mc.hpp>

#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/inject.hpp>

namespace fz {

struct Env {
  bool exact;  // nothing is injected: fibers switch only where they block
};

inline Env Configure() {
  static constexpr mc::u32 kFreq[] = {1000000000, 16, 2, 1, 5};
  static constexpr mc::u32 kSleep[] = {100, 1, 10, 1000};
  static constexpr mc::u32 kPick[] = {10, 1, 2, 3};
  static constexpr mc::u32 kTick[] = {10, 1, 100, 7};
  static constexpr mc::u32 kFail[] = {13, 0, 2};
  const auto freq = kFreq[mc::P(5)];
  yaclib::SetFaultFrequency(freq);
  yaclib::SetFaultSleepTime(kSleep[mc::P(4)]);
  yaclib::fiber::SetFaultRandomListPick(kPick[mc::P(4)]);
  yaclib::fiber::SetFaultTickLength(kTick[mc::P(4)]);
  yaclib::SetAtomicFailFrequency(kFail[mc::P(3)]);
  yaclib::fiber::SetStackSize(32);
  yaclib::SetSeed(mc::S(1U << 31));
  yaclib::fiber::SetInjectorState(0);
  mc::Describe("freq=%u ", freq);
  return {freq == 1000000000};
}

// a fresh virtual clock and run queue
class Scheduler {
 public:
  Scheduler() {
    yaclib::fault::Scheduler::Set(&_scheduler);
  }
  ~Scheduler() {
    yaclib::fault::Scheduler::Set(nullptr);
  }

 private:
  yaclib::fault::Scheduler _scheduler;
};

}  // namespace fz
