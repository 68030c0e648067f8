// C17: generation, fresh processes, comparison
#include "c17.hpp"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <spawn.h>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern char** environ;

namespace mc {

extern int (*g_side_main)(int, char**);
bool Replaying() noexcept;

}  // namespace mc

namespace {

using namespace c17;
using mc::P;
using mc::PB;

// different addresses: neither the heap nor the cached stacks look like they did before
u64 g_noise = 88172645463325252ULL;

u64 Noise() {
  g_noise ^= g_noise << 13;
  g_noise ^= g_noise >> 7;
  g_noise ^= g_noise << 17;
  return g_noise;
}

void Perturb() {
  static std::vector<void*> kept;
  static constexpr std::size_t kMax = 512;
  if (kept.size() > kMax / 2) {
    // in a random order, half of them stay
    for (std::size_t i = kept.size(); i > 1; --i) {
      std::swap(kept[i - 1], kept[Noise() % i]);
    }
    for (std::size_t i = 0; i < kMax / 4; ++i) {
      std::free(kept.back());
      kept.pop_back();
    }
  }
  const u32 n = 8 + Noise() % 24;
  for (u32 i = 0; i < n; ++i) {
    void* p = std::malloc(16 + Noise() % 700);
    std::memset(p, static_cast<int>(Noise()), 16);
    if (Noise() % 4 == 0) {
      std::free(p);
    } else {
      kept.push_back(p);
    }
  }
}

struct Request {
  Program program;
  u32 how;
  Pair pair;
};

bool ReadAll(int fd, void* to, std::size_t n) {
  auto* p = static_cast<char*>(to);
  while (n != 0) {
    const ssize_t r = read(fd, p, n);
    if (r < 0 && errno == EINTR) {
      continue;
    }
    if (r <= 0) {
      return false;
    }
    p += r;
    n -= static_cast<std::size_t>(r);
  }
  return true;
}

bool WriteAll(int fd, const void* from, std::size_t n) {
  auto* p = static_cast<const char*>(from);
  while (n != 0) {
    const ssize_t r = write(fd, p, n);
    if (r < 0 && errno == EINTR) {
      continue;
    }
    if (r <= 0) {
      return false;
    }
    p += r;
    n -= static_cast<std::size_t>(r);
  }
  return true;
}

constexpr int kFd = 77;  // what libraries print does not get into it

int Side(int, char**) {
  Request r;
  if (!ReadAll(0, &r, sizeof(r))) {
    return 4;
  }
  timespec now;
  clock_gettime(CLOCK_MONOTONIC, &now);
  g_noise ^= static_cast<u64>(getpid()) * 0x9E3779B97F4A7C15ULL ^ static_cast<u64>(now.tv_nsec) << 20;
  for (u32 i = 0; i < 20; ++i) {
    Perturb();
  }
  Outcome out;
  Execute(r.program, static_cast<How>(r.how), r.pair, out);
  for (auto& e : out.events) {
    const u64 n = e.size();
    if (!WriteAll(kFd, &n, sizeof(n)) || !WriteAll(kFd, e.data(), n * sizeof(Event))) {
      return 5;
    }
  }
  if (!WriteAll(kFd, &out.pair, sizeof(out.pair))) {
    return 5;
  }
  return 0;
}

struct SetSide {
  SetSide() {
    mc::g_side_main = &Side;
  }
} g_set_side;

// false: no answer (the machine, not the program)
bool InNewProcess(const Program& p, How how, Pair pair, Outcome& out) {
  int in[2], back[2];
  if (pipe2(in, 02000000) != 0 || pipe2(back, 02000000) != 0) {
    return false;
  }
  posix_spawn_file_actions_t actions;
  posix_spawn_file_actions_init(&actions);
  posix_spawn_file_actions_adddup2(&actions, in[0], 0);
  posix_spawn_file_actions_adddup2(&actions, back[1], kFd);
  char self[] = "/proc/self/exe", side[] = "--side", name[] = "c17";
  char path[4096];
  const ssize_t len = readlink(self, path, sizeof(path) - 1);
  if (len <= 0) {
    return false;
  }
  path[len] = 0;
  char* argv[] = {path, side, name, nullptr};
  pid_t pid = -1;
  const int rc = posix_spawn(&pid, path, &actions, nullptr, argv, environ);
  posix_spawn_file_actions_destroy(&actions);
  close(in[0]);
  close(back[1]);
  bool ok = rc == 0;
  if (ok) {
    Request r;
    std::memset(static_cast<void*>(&r), 0, sizeof(r));
    r.program = p;
    r.how = how;
    r.pair = pair;
    ok = WriteAll(in[1], &r, sizeof(r));
  }
  close(in[1]);
  for (auto& e : out.events) {
    u64 n = 0;
    ok = ok && ReadAll(back[0], &n, sizeof(n)) && n < (1U << 24);
    if (ok) {
      e.resize(n);
      ok = ReadAll(back[0], e.data(), n * sizeof(Event));
    }
  }
  ok = ok && ReadAll(back[0], &out.pair, sizeof(out.pair));
  close(back[0]);
  if (pid > 0) {
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 10) {
      mc::Fail("", "the program ends in a new process with a failure");
    }
    if (WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL) {
      mc::Fail("", "the program ends in a new process with signal %d", WTERMSIG(status));
    }
    ok = ok && WIFEXITED(status) && WEXITSTATUS(status) == 0;
  }
  return ok;
}

std::string Show(const Event& e) {
  char buf[300];
  std::snprintf(buf, sizeof(buf),
                "{fiber %u, %s %llu, random count %llu, virtual time %llu, injector %u, injected %u}", e.fiber, OpName(e.op),
                (unsigned long long)e.value, (unsigned long long)e.random_count, (unsigned long long)e.time, e.injector,
                e.injected);
  return buf;
}

void Same(const std::vector<Event>& a, const std::vector<Event>& b, const char* what) {
  const std::size_t n = a.size() < b.size() ? a.size() : b.size();
  for (std::size_t i = 0; i < n; ++i) {
    if (!(a[i] == b[i])) {
      const std::string before = i != 0 ? Show(a[i - 1]) : "the start";
      mc::Fail("", "%s diverges at event %zu (after %s): first run %s, now %s", what, i, before.c_str(), Show(a[i]).c_str(),
               Show(b[i]).c_str());
    }
  }
  MC_CHECK(a.size() == b.size(), "%s diverges: %zu events, first run had %zu", what, b.size(), a.size());
}

void SamePair(const Outcome& a, const Outcome& b, const char* what) {
  MC_CHECK(a.pair.random_count == b.pair.random_count && a.pair.injector == b.pair.injector,
           "%s: random count %llu and injector state %u between the phases, first run had %llu and %u", what,
           (unsigned long long)b.pair.random_count, b.pair.injector, (unsigned long long)a.pair.random_count, a.pair.injector);
}

constexpr u8 kLast = 35;   // oEvent
constexpr u8 kFirstLib = 24;  // oRun

Op GenOp(bool pool) {
  static constexpr u32 kNs[] = {0, 1, 5, 10, 25, 100, 1000, 100000};
  Op op{};
  // half of the operations of a program with a pool are the library's
  op.kind = static_cast<u8>(pool && PB() ? kFirstLib + P(kLast - kFirstLib + 1) : 2 + P(kFirstLib - 2));
  op.a = static_cast<u8>(P(6));
  op.b = static_cast<u8>(P(12));
  op.c = static_cast<u8>(P(8));
  op.ns = kNs[P(8)];
  return op;
}

Program Gen() {
  static constexpr u32 kFreq[] = {16, 2, 1, 3, 5, 1000000000};
  static constexpr u32 kSleep[] = {100, 1, 10, 1000};
  static constexpr u32 kPick[] = {10, 1, 2, 3, 16};
  static constexpr u32 kTick[] = {10, 1, 100, 7};
  static constexpr u32 kFail[] = {13, 0, 2, 3};
  static constexpr u32 kCache[] = {100, 1, 5};
  Program p;
  std::memset(static_cast<void*>(&p), 0, sizeof(p));
  p.cfg = {kFreq[P(6)], kSleep[P(4)], kPick[P(5)], kTick[P(4)], kFail[P(4)], kCache[P(3)], P(3)};
  p.seed = mc::S(1U << 31);
  if (P(64) == 63) {
    static constexpr u32 kWarm[] = {100, 3000, 40000, 70000};
    p.warm = kWarm[P(4)];
    mc::Describe("%u yields first ", p.warm);
  }
  p.in_root = static_cast<u8>(P(2));
  for (auto& ph : p.phase) {
    ph.pool = static_cast<u8>(P(4));
    ph.strand = static_cast<u8>(P(2));
    ph.threads = static_cast<u8>(1 + P(ph.pool != 0 ? 3 : 4));
    for (u32 t = 0; t < ph.threads; ++t) {
      ph.n[t] = static_cast<u8>(P(ph.pool != 0 ? 5 : kOps + 1));
      for (u32 i = 0; i < ph.n[t]; ++i) {
        ph.ops[t][i] = GenOp(ph.pool != 0);
      }
    }
  }
  mc::Describe("seed=%u freq=%u pick=%u tick=%u fail=%u%s ", p.seed, p.cfg.freq, p.cfg.pick, p.cfg.tick, p.cfg.fail,
               p.in_root ? " one root fiber" : "");
  for (auto& ph : p.phase) {
    mc::Describe("[pool %u:", ph.pool);
    for (u32 t = 0; t < ph.threads; ++t) {
      mc::Describe(" (");
      for (u32 i = 0; i < ph.n[t]; ++i) {
        auto& o = ph.ops[t][i];
        mc::Describe("%s(%u,%u,%u,%u)%s", OpName(o.kind), o.a, o.b, o.c, o.ns, i + 1 < ph.n[t] ? "; " : "");
      }
      mc::Describe(")");
    }
    mc::Describe("] ");
  }
  return p;
}

void InNewThread(const Program& p, How how, Pair pair, Outcome& out) {
  std::thread{[&] {
    Execute(p, how, pair, out);
  }}.join();
}

}  // namespace

MC_SCENARIO(fiber_replay, "C17", 1) {
  const Program p = Gen();
  const u32 kind = P(3);             // again / continue / both
  const bool fresh = P(16) == 15;    // in a new process too
  const bool thread = P(16) == 15;   // in a new thread of this process
  const bool history = P(3) == 2;    // something else in between
  Outcome first;
  Execute(p, kFull, {}, first);
  u32 switches = 0, fibers = 0;
  for (auto& ev : first.events) {
    for (std::size_t i = 1; i < ev.size(); ++i) {
      switches += ev[i].fiber != ev[i - 1].fiber;
      fibers = ev[i].fiber > fibers ? ev[i].fiber : fibers;
    }
    if (mc::Verbose()) {
      for (auto& e : ev) {
        mc::Log("  %s", Show(e).c_str());
      }
      mc::Log("  --");
    }
  }
  mc::Describe("-> %zu+%zu events, %u switches between them ", first.events[0].size(), first.events[1].size(), switches);
  if (fibers >= 1 && switches >= 4) {
    mc::NonTrivial();
  }
  // a dependence on addresses or on the wall clock shows up by chance only
  const u32 tries = mc::Replaying() ? 24 : 1;
  for (u32 i = 0; i < tries; ++i) {
    Perturb();
    if (history) {
      Program other = p;
      other.seed = p.seed / 2 + 1;
      other.cfg.freq = 2;
      other.cfg.pick = 3;
      other.cfg.tick = 5;
      std::swap(other.phase[0], other.phase[1]);
      other.in_root = !p.in_root;
      Outcome ignored;
      Execute(other, kFull, {}, ignored);
    }
    if (kind != 1) {
      Outcome again;
      thread ? InNewThread(p, kFull, {}, again) : Execute(p, kFull, {}, again);
      const char* what = thread ? "the same program again in another thread" : "the same program again in this process";
      Same(first.events[0], again.events[0], what);
      SamePair(first, again, what);
      Same(first.events[1], again.events[1], what);
      mc::Label("again");
    }
    if (kind != 0) {
      static constexpr How kHow[] = {kRestore, kAfterOther, kForward};
      const How how = kHow[mc::Replaying() ? i % 3 : static_cast<u32>(first.pair.random_count % 3)];
      Outcome again;
      thread ? InNewThread(p, how, first.pair, again) : Execute(p, how, first.pair, again);
      Same(first.events[1], again.events[1],
           how == kRestore      ? "the continuation from the recorded pair in this process"
           : how == kAfterOther ? "the continuation from the pair, restored after another run, in this process"
                                : "the continuation after forwarding to the pair");
      mc::Label("continued");
    }
    if (fresh) {
      Outcome again;
      if (InNewProcess(p, kFull, {}, again)) {
        Same(first.events[0], again.events[0], "the same program in a new process");
        SamePair(first, again, "the same program in a new process");
        Same(first.events[1], again.events[1], "the same program in a new process");
        mc::Label("new process");
      } else {
        mc::Label("no answer from the new process");
      }
      Outcome rest;
      if (InNewProcess(p, kRestore, first.pair, rest)) {
        Same(first.events[1], rest.events[1], "the continuation from the recorded pair in a new process");
        mc::Label("continued in a new process");
      }
    }
  }
}
