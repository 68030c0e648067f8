// C17: a program on the FIBER backend is a function of (program, seed, fault configuration)
#pragma once

#include <mc.hpp>

#include <cstddef>
#include <type_traits>
#include <vector>

namespace c17 {

using mc::u32;
using mc::u64;
using u8 = unsigned char;

struct Config {
  u32 freq, sleep, pick, tick, fail, cache, hardware;
};

struct Op {
  u8 kind, a, b, c;
  u32 ns;
};

constexpr u32 kThreads = 5;
constexpr u32 kOps = 8;

struct Phase {
  u8 pool;    // number of workers, 0 - no pool
  u8 strand;  // strand over: the pool, a strand over the pool
  u8 threads;
  u8 n[kThreads];
  Op ops[kThreads][kOps];
};

struct Program {
  Config cfg;
  u32 seed;
  u32 warm;    // yields before the first phase: a long history
  u8 in_root;  // both phases in one fiber of one scheduler
  Phase phase[2];
};
static_assert(std::is_trivially_copyable_v<Program>);

enum How : u32 {
  kFull,        // phase 0 and 1 from the seed, the pair is recorded between them
  kRestore,     // restore the pair, phase 1
  kAfterOther,  // phase 0 under another seed, restore the pair, phase 1
  kForward,     // a few draws after the seed, then forward to the pair, phase 1
};

struct Event {
  u32 fiber;
  u32 op;
  u64 value;
  u64 random_count;
  u64 time;
  u32 injector;
  u32 injected;

  bool operator==(const Event& o) const noexcept {
    return fiber == o.fiber && op == o.op && value == o.value && random_count == o.random_count && time == o.time &&
           injector == o.injector && injected == o.injected;
  }
};
static_assert(std::is_trivially_copyable_v<Event>);

struct Pair {
  u64 random_count = 0;
  u32 injector = 0;
};

struct Outcome {
  std::vector<Event> events[2];
  Pair pair;
};

// executes the program; phases that `how` leaves out have no events
void Execute(const Program& program, How how, Pair pair, Outcome& out);

const char* OpName(u32 op) noexcept;

}  // namespace c17
