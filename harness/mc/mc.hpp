// Deterministic run-time: fibers instead of threads, every synchronisation operation is a schedule point,
// every decision is an entry of a choice tape.
#pragma once

#include <cstddef>
#include <cstdint>

namespace mc {

using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---------------------------------------------------------------- choices
// Program choice in [0, n): 0 is the simplest one.
u32 P(u32 n) noexcept;
inline bool PB() noexcept {
  return P(2) != 0;
}
// Schedule-side choice in [0, n), uniform; 0 is the simplest one
u32 S(u32 n) noexcept;

// ---------------------------------------------------------------- verdicts
// tags: comma separated property ids this failure violates, "" = own property of the scenario
[[noreturn]] void Fail(const char* tags, const char* fmt, ...) noexcept __attribute__((format(printf, 2, 3)));
void Label(const char* name) noexcept;
void NonTrivial() noexcept;
void Describe(const char* fmt, ...) noexcept __attribute__((format(printf, 1, 2)));
void Log(const char* fmt, ...) noexcept __attribute__((format(printf, 1, 2)));
bool Verbose() noexcept;

#define MC_CHECK(cond, ...)        \
  do {                             \
    if (!(cond)) {                 \
      ::mc::Fail("", __VA_ARGS__); \
    }                              \
  } while (false)
// Ready() is an acquire load: under ThreadSanitizer it must not stand between a completion and the read of the result
#ifdef MC_TSAN
#  define MC_READY(cond, ...) static_cast<void>(0)
#else
#  define MC_READY(cond, ...) MC_CHECK(cond, __VA_ARGS__)
#endif
#define MC_CHECK_TAG(tag, cond, ...) \
  do {                               \
    if (!(cond)) {                   \
      ::mc::Fail(tag, __VA_ARGS__);  \
    }                                \
  } while (false)

// ---------------------------------------------------------------- scheduling
void Point(const char* op = "point", const void* addr = nullptr) noexcept;
void After() noexcept;
u32 Self() noexcept;
u64 Now() noexcept;  // virtual nanoseconds
u64 Steps() noexcept;
u32 Switches() noexcept;
u32 Preemptions() noexcept;  // switches away from a thread that could have continued
bool Spurious() noexcept;
// returns when nobody else can run (no happens-before edge)
void Quiesce() noexcept;
// true if nobody else can run
bool OthersIdle() noexcept;

// number of live (not yet freed) blocks and number of allocations so far by the current process
u64 LiveNews() noexcept;
u64 TotalNews() noexcept;

using Fn = void (*)(void*);
u32 Spawn(Fn fn, void* arg) noexcept;
void Join(u32 id) noexcept;
void Detach(u32 id) noexcept;
void SleepUntil(u64 deadline_ns) noexcept;

constexpr u64 kNoDeadline = ~u64{0};
// Blocks until WakeAll/WakeOne(obj) or the deadline; true iff it was woken up
bool Block(const char* op, const void* obj, u64 deadline = kNoDeadline) noexcept;
void WakeAll(const void* obj) noexcept;
void WakeOne(const void* obj) noexcept;

// ---------------------------------------------------------------- ThreadSanitizer glue (no-ops elsewhere)
void HbAcquire(const void* addr) noexcept;
void HbRelease(const void* addr) noexcept;
void NoteLoad(const void* addr, int order) noexcept;  // after a load / RMW with an order weaker than acquire
bool ReleaseFenceActive() noexcept;
void Fence(int order) noexcept;

// ---------------------------------------------------------------- scenarios
struct Scenario {
  const char* name;
  const char* tags;
  u32 weight;
  void (*body)();
  Scenario* next;
  u64 cases = 0;
  u64 nontrivial = 0;
  u64 failed = 0;
};
void Register(Scenario* s) noexcept;

struct Registrar {
  explicit Registrar(Scenario* s) noexcept {
    Register(s);
  }
};

#define MC_SCENARIO(name, tags, weight)                                            \
  static void mc_body_##name();                                                    \
  static ::mc::Scenario mc_scenario_##name{#name, tags, weight, &mc_body_##name, nullptr}; \
  static ::mc::Registrar mc_registrar_##name{&mc_scenario_##name};                 \
  static void mc_body_##name()

}  // namespace mc
