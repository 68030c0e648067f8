// Run-time: see mc.hpp. Compiled without sanitizer instrumentation.
#include "mc.hpp"

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <malloc.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include <yaclib/log.hpp>

#if defined(MC_ASAN)
#  include <sanitizer/asan_interface.h>
#  include <sanitizer/common_interface_defs.h>
#endif
#if defined(MC_TSAN)
extern "C" {
void* __tsan_get_current_fiber(void);
void* __tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void* fiber);
void __tsan_switch_to_fiber(void* fiber, unsigned flags);
void __tsan_acquire(void* addr);
void __tsan_release(void* addr);
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}
// libc functions called by the run-time itself are intercepted
struct TsanIgnore {
  TsanIgnore() {
    AnnotateIgnoreReadsBegin("mc", 0);
    AnnotateIgnoreWritesBegin("mc", 0);
  }
  ~TsanIgnore() {
    AnnotateIgnoreWritesEnd("mc", 0);
    AnnotateIgnoreReadsEnd("mc", 0);
  }
};
#else
struct TsanIgnore {
  TsanIgnore() {
  }
  ~TsanIgnore() {
  }
};
#endif

// void mc_switch(void** save, void* to)
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
.globl mc_entry
.type mc_entry,@function
mc_entry:
  xorl %ebp, %ebp
  movq %r12, %rdi
  pushq $0
  jmp mc_fiber_main
.size mc_entry,.-mc_entry
)");
extern "C" void mc_switch(void** save, void* to);
extern "C" void mc_entry();

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}  // namespace __cxxabiv1

namespace mc {
namespace {

constexpr u32 kMaxFibers = 40;
constexpr std::size_t kStack = 512 * 1024;
constexpr u32 kMaxP = 4096;
constexpr u32 kMaxS = 1U << 18;
constexpr u32 kMaxSteps = 60000;
constexpr u32 kMaxNotes = 256;

struct Shared {
  char magic[8];
  u64 cases;
  u64 index;
  u32 failed;
  u32 np, ns;
  u32 running;
  u64 nontrivial;
  u64 distinct;
  char scenario[64];
  char tags[128];
  char msg[4000];
  char describe[4000];
  u32 p[kMaxP];
  u32 s[kMaxS];
};

enum class St : u32 { Free, Runnable, Blocked, Finished };

struct Fiber {
  u32 id;
  St st;
  bool detached;
  bool woken;
  const void* obj;
  const char* op;
  u64 deadline;
  u32 prio;
  u32 consecutive;
  Fn fn;
  void* arg;
  // context
  void* sp;
  char* stack;
  void* eh[2];
  void* asan_fake;
  const void* asan_bottom;
  std::size_t asan_size;
  void* tsan;
  // fence emulation
  const void* notes[kMaxNotes];
  u32 nnotes;
  bool rel_fence;
  char start_token, end_token;
};

Fiber g_fibers[kMaxFibers];
Fiber* g_cur = nullptr;
Shared* g_sh = nullptr;
Shared g_private;

// case state
u64 g_steps, g_now, g_rng;
u32 g_switches, g_preempts;
bool g_replay, g_verbose, g_nontrivial, g_in_case;
u32 g_rp_n, g_rs_n;
u32 *g_rp, *g_rs;
u32 g_pi, g_si;
u32 g_strategy, g_pnum, g_spur, g_tmode;
u32 g_change[8];
u32 g_nchange, g_lowprio;
u32 g_burst;
bool g_after;  // schedule points after atomic operations, too
u64 g_len_est = 200;
bool g_failing;
Scenario* g_scenarios;
Scenario* g_scen;
u32 g_ndesc;
bool g_desc_on;

u64 g_live, g_total;
bool g_count_on = true;

struct LabelEntry {
  const char* scen;
  const char* name;
  u64 n;
  u64 last_case;
};
LabelEntry g_labels[1024];
u32 g_nlabels;
u64 g_case_no;

u64 Rnd() noexcept {
  u64 z = (g_rng += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

u64 Mix(u64 a, u64 b) noexcept {
  u64 z = a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

void RecS(u32 v) noexcept {
  if (g_sh->ns < kMaxS) {
    g_sh->s[g_sh->ns++] = v;
  }
}

void CopyStr(char* to, std::size_t cap, const char* from) noexcept {
  std::size_t i = 0;
  for (; i + 1 < cap && from[i] != 0; ++i) {
    to[i] = from[i];
  }
  to[i] = 0;
}

const char* StName(St s) {
  return s == St::Runnable ? "runnable" : s == St::Blocked ? "blocked" : s == St::Finished ? "finished" : "free";
}

void SwitchTo(Fiber* to) noexcept {
  Fiber* from = g_cur;
  if (from == to) {
    return;
  }
  ++g_switches;
  g_cur = to;
  to->consecutive = 0;
  auto** eh = reinterpret_cast<void**>(__cxxabiv1::__cxa_get_globals());
  from->eh[0] = eh[0];
  from->eh[1] = eh[1];
  eh[0] = to->eh[0];
  eh[1] = to->eh[1];
#if defined(MC_ASAN)
  __sanitizer_start_switch_fiber(&from->asan_fake, to->asan_bottom, to->asan_size);
#endif
#if defined(MC_TSAN)
  __tsan_switch_to_fiber(to->tsan, 1);
#endif
  mc_switch(&from->sp, to->sp);
#if defined(MC_ASAN)
  __sanitizer_finish_switch_fiber(from->asan_fake, nullptr, nullptr);
#endif
}

[[noreturn]] void Stuck(const char* what) noexcept {
  char buf[2000];
  int n = std::snprintf(buf, sizeof(buf), "%s:", what);
  for (auto& f : g_fibers) {
    if (f.st != St::Free && n < 1900) {
      n += std::snprintf(buf + n, sizeof(buf) - n, " T%u=%s%s%s", f.id, StName(f.st), f.st == St::Blocked ? " in " : "",
                         f.st == St::Blocked ? f.op : "");
    }
  }
  Fail("", "%s", buf);
}

// Chooses who runs next. cur_ok: the current fiber may continue.
char g_quiesce;  // address: what Quiesce() waits for
void Reschedule(bool cur_ok) noexcept {
  Fiber* cand[kMaxFibers];
  u32 n = 0;
  if (cur_ok) {
    cand[n++] = g_cur;
  }
  for (u32 k = 1; k <= kMaxFibers; ++k) {
    auto& f = g_fibers[(g_cur->id + k) % kMaxFibers];
    if (&f != g_cur && f.st == St::Runnable) {
      cand[n++] = &f;
    }
  }
  const u32 runnable = n;
  for (u32 k = 1; k <= kMaxFibers; ++k) {
    auto& f = g_fibers[(g_cur->id + k) % kMaxFibers];
    if (f.st == St::Blocked && f.deadline != kNoDeadline && (&f != g_cur || !cur_ok)) {
      cand[n++] = &f;
    }
  }
  if (n == 0) {
    for (auto& f : g_fibers) {
      if (f.st == St::Blocked && f.obj == &g_quiesce) {
        f.obj = nullptr;
        f.st = St::Runnable;
        cand[n++] = &f;
        break;
      }
    }
  }
  if (n == 0) {
    Stuck("deadlock: nothing can run");
  }
  u32 c = 0;
  const bool fair = g_steps > kMaxSteps;
  if (cur_ok && runnable > 1 && (g_cur->consecutive > 96 || (fair && g_cur->consecutive > 8))) {
    c = 1;  // spinning: somebody else has to make progress (deterministic, not on the tape)
    g_cur->prio = g_lowprio;
    if (g_lowprio > 1) {
      --g_lowprio;
    }
  } else if (n > 1) {
    if (g_replay) {
      c = g_si < g_rs_n ? g_rs[g_si] : 0;
      ++g_si;
      if (c >= n) {
        c = n - 1;
      }
    } else {
      u32 m = n;
      if (runnable != 0 && runnable != n) {
        bool timed = g_tmode == 2 || (g_tmode == 1 && Rnd() % 8 == 0);
        if (!timed) {
          m = runnable;
        }
      }
      if (g_strategy == 1) {  // PCT
        if (cur_ok) {
          for (u32 i = 0; i < g_nchange; ++i) {
            if (g_change[i] == g_steps) {
              g_cur->prio = g_lowprio;
              if (g_lowprio > 1) {
                --g_lowprio;
              }
            }
          }
        }
        u32 best = 0;
        for (u32 i = 0; i < m; ++i) {
          if (cand[i]->prio > cand[best]->prio) {
            best = i;
          }
        }
        c = best;
      } else {
        u32 pn = g_pnum;
        if (g_strategy == 2) {
          if (Rnd() % 16 == 0) {
            g_burst = !g_burst;
          }
          pn = g_burst ? 2 : 40;
        }
        if (cur_ok) {
          c = (m > 1 && Rnd() % pn == 0) ? 1 + static_cast<u32>(Rnd() % (m - 1)) : 0;
        } else {
          c = static_cast<u32>(Rnd() % m);
        }
      }
    }
    RecS(c);
  }
  Fiber* to = cand[c];
  if (to->st == St::Blocked) {  // timeout fires
    if (g_now < to->deadline) {
      g_now = to->deadline;
    }
    to->woken = false;
    to->obj = nullptr;
    to->st = St::Runnable;
    to->deadline = kNoDeadline;
  }
  if (to != g_cur) {
    g_preempts += cur_ok;
    if (g_verbose) {
      std::fprintf(stderr, "      -- switch T%u -> T%u\n", g_cur->id, to->id);
    }
    SwitchTo(to);
  } else {
    ++g_cur->consecutive;
  }
}

void Step(const char* op, const void* addr) noexcept {
  ++g_steps;
  g_now += 10;
  if (g_steps > 2 * kMaxSteps) {
    Stuck("livelock: no completion under a fair schedule");
  }
  if (g_verbose) {
    std::fprintf(stderr, "      T%u %s %p\n", g_cur->id, op, addr);
  }
}

}  // namespace

// ------------------------------------------------------------------ API
u32 P(u32 n) noexcept {
  if (n <= 1) {
    return 0;
  }
  u32 v;
  if (g_replay) {
    v = g_pi < g_rp_n ? g_rp[g_pi] : 0;
    ++g_pi;
    if (v >= n) {
      v = n - 1;
    }
  } else {
    v = static_cast<u32>(Rnd() % n);
  }
  if (g_sh->np < kMaxP) {
    g_sh->p[g_sh->np++] = v;
  }
  return v;
}

u32 S(u32 n) noexcept {
  if (n <= 1) {
    return 0;
  }
  u32 v;
  if (g_replay) {
    v = g_si < g_rs_n ? g_rs[g_si] : 0;
    ++g_si;
    if (v >= n) {
      v = n - 1;
    }
  } else {
    v = static_cast<u32>(Rnd() % n);
  }
  RecS(v);
  return v;
}

bool Spurious() noexcept {
  if (g_steps > kMaxSteps) {
    return false;
  }
  u32 v;
  if (g_replay) {
    v = g_si < g_rs_n ? g_rs[g_si] : 0;
    ++g_si;
    v = v != 0;
  } else {
    v = g_spur != 0 && Rnd() % g_spur == 0;
  }
  RecS(v);
  if (v != 0 && g_verbose) {
    std::fprintf(stderr, "      T%u spurious CAS failure\n", g_cur->id);
  }
  return v != 0;
}

void Fail(const char* tags, const char* fmt, ...) noexcept {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  {
  TsanIgnore ignore;
  std::vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (!g_failing) {
    g_failing = true;
    const char* own = g_scen != nullptr ? g_scen->tags : "";
    char all[128];
    if (*tags == 0) {
      std::snprintf(all, sizeof(all), "%s", own);
    } else if (*tags == '+') {
      std::snprintf(all, sizeof(all), "%s,%s", own, tags + 1);
    } else {
      std::snprintf(all, sizeof(all), "%s", tags);
    }
    CopyStr(g_sh->tags, sizeof(g_sh->tags), all);
    CopyStr(g_sh->msg, sizeof(g_sh->msg), buf);
    g_sh->failed = 1;
    std::fprintf(stderr, "FAIL [%s] %s: %s\n", g_sh->tags, g_sh->scenario, buf);
  }
  }
  _exit(10);
}

static bool SameStr(const char* a, const char* b) noexcept {
  while (*a != 0 && *a == *b) {
    ++a;
    ++b;
  }
  return *a == *b;
}
static char g_label_pool[64 << 10];
static std::size_t g_label_used = 0;

void Label(const char* name) noexcept {
  for (u32 i = 0; i < g_nlabels; ++i) {
    if ((g_labels[i].name == name || SameStr(g_labels[i].name, name)) && g_labels[i].scen == g_scen->name) {
      if (g_labels[i].last_case != g_case_no) {
        g_labels[i].last_case = g_case_no;
        ++g_labels[i].n;
      }
      return;
    }
  }
  if (g_nlabels < 1024) {
    // labels may be built in a temporary buffer
    std::size_t len = 1;
    for (const char* c = name; *c != 0; ++c) {
      ++len;
    }
    if (g_label_used + len > sizeof(g_label_pool)) {
      return;
    }
    auto* copy = g_label_pool + g_label_used;
    g_label_used += len;
    for (std::size_t i = 0; i < len; ++i) {
      copy[i] = name[i];
    }
    g_labels[g_nlabels++] = {g_scen->name, copy, 1, g_case_no};
  }
}

void NonTrivial() noexcept {
  g_nontrivial = true;
}

void Describe(const char* fmt, ...) noexcept {
  if (!g_desc_on) {
    return;
  }
  if (g_ndesc >= sizeof(g_sh->describe) - 1) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  TsanIgnore ignore;
  int n = std::vsnprintf(g_sh->describe + g_ndesc, sizeof(g_sh->describe) - g_ndesc, fmt, ap);
  va_end(ap);
  if (n > 0) {
    g_ndesc += n;
    if (g_ndesc > sizeof(g_sh->describe) - 1) {
      g_ndesc = sizeof(g_sh->describe) - 1;
    }
  }
}

void Log(const char* fmt, ...) noexcept {
  if (!g_verbose) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  TsanIgnore ignore;
  std::fprintf(stderr, "    T%u: ", g_cur->id);
  std::vfprintf(stderr, fmt, ap);
  std::fprintf(stderr, "\n");
  va_end(ap);
}

bool Verbose() noexcept {
  return g_verbose;
}

void Point(const char* op, const void* addr) noexcept {
  if (!g_in_case) {
    return;
  }
  Step(op, addr);
  Reschedule(true);
}

void After() noexcept {
  if (g_after && g_in_case) {
    Step("after", nullptr);
    Reschedule(true);
  }
}

u32 Self() noexcept {
  return g_cur->id;
}
u64 Now() noexcept {
  return g_now;
}
u64 Steps() noexcept {
  return g_steps;
}
u32 Switches() noexcept {
  return g_switches;
}
u32 Preemptions() noexcept {
  return g_preempts;
}
bool OthersIdle() noexcept {
  for (auto& f : g_fibers) {
    if (&f != g_cur && (f.st == St::Runnable || (f.st == St::Blocked && f.deadline != kNoDeadline))) {
      return false;
    }
  }
  return true;
}
u64 LiveNews() noexcept {
  return g_live;
}
u64 TotalNews() noexcept {
  return g_total;
}

extern "C" void mc_fiber_main(Fiber* self) noexcept {
#if defined(MC_ASAN)
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  while (true) {
    HbAcquire(&self->start_token);
    self->fn(self->arg);
    HbRelease(&self->end_token);
    self->st = St::Finished;
    WakeAll(&self->end_token);
    WakeAll(&g_fibers[0].end_token);
    if (self->detached) {
      self->st = St::Free;
    }
    if (g_verbose) {
      std::fprintf(stderr, "      T%u finished\n", self->id);
    }
    Reschedule(false);
  }
}

u32 Spawn(Fn fn, void* arg) noexcept {
  Fiber* f = nullptr;
  for (u32 i = 1; i < kMaxFibers; ++i) {
    if (g_fibers[i].st == St::Free) {
      f = &g_fibers[i];
      break;
    }
  }
  if (f == nullptr) {
    Fail("HARNESS", "too many threads");
  }
  f->st = St::Runnable;
  f->detached = false;
  f->fn = fn;
  f->arg = arg;
  f->obj = nullptr;
  f->deadline = kNoDeadline;
  f->consecutive = 0;
  f->nnotes = 0;
  f->rel_fence = false;
  f->prio = g_replay ? 1 : 1000 + static_cast<u32>(Rnd() % 1000);
  f->eh[0] = f->eh[1] = nullptr;
  if (f->stack == nullptr) {
    auto* m = static_cast<char*>(
      mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (m == MAP_FAILED) {
      Fail("HARNESS", "mmap");
    }
    mprotect(m, 4096, PROT_NONE);
    f->stack = m + 4096;
    f->asan_bottom = f->stack;
    f->asan_size = kStack;
#if defined(MC_TSAN)
    f->tsan = __tsan_create_fiber(0);
#endif
    // [r15 r14 r13 r12 rbx rbp ret]; after ret rsp must be 16-aligned minus 8 semantics handled by mc_entry's push
    auto* top = reinterpret_cast<void**>(f->stack + kStack);
    top -= 2;            // keep 16 alignment
    *--top = reinterpret_cast<void*>(&mc_entry);
    *--top = nullptr;    // rbp
    *--top = nullptr;    // rbx
    *--top = f;          // r12
    *--top = nullptr;    // r13
    *--top = nullptr;    // r14
    *--top = nullptr;    // r15
    f->sp = top;
  }
  HbRelease(&f->start_token);
  u32 id = f->id;
  Point("spawn", reinterpret_cast<void*>(static_cast<std::uintptr_t>(id)));
  return id;
}

void Join(u32 id) noexcept {
  if (id == 0 || g_fibers[id].st == St::Free) {
    Fail("", "join of a thread that is not joinable");
  }
  Point("join", reinterpret_cast<void*>(static_cast<std::uintptr_t>(id)));
  auto& f = g_fibers[id];
  while (f.st != St::Finished) {
    Block("join", &f.end_token);
  }
  HbAcquire(&f.end_token);
  f.st = St::Free;
}

void Detach(u32 id) noexcept {
  auto& f = g_fibers[id];
  f.detached = true;
  if (f.st == St::Finished) {
    f.st = St::Free;
  }
}

bool Block(const char* op, const void* obj, u64 deadline) noexcept {
  Step(op, obj);
  g_cur->st = St::Blocked;
  g_cur->obj = obj;
  g_cur->op = op;
  g_cur->deadline = deadline;
  g_cur->woken = true;
  Reschedule(false);
  return g_cur->woken;
}

void WakeAll(const void* obj) noexcept {
  for (auto& f : g_fibers) {
    if (f.st == St::Blocked && f.obj == obj) {
      f.st = St::Runnable;
      f.obj = nullptr;
      f.deadline = kNoDeadline;
      f.woken = true;
    }
  }
}

void WakeOne(const void* obj) noexcept {
  Fiber* w[kMaxFibers];
  u32 n = 0;
  for (auto& f : g_fibers) {
    if (f.st == St::Blocked && f.obj == obj) {
      w[n++] = &f;
    }
  }
  if (n == 0) {
    return;
  }
  auto& f = *w[n == 1 ? 0 : S(n)];
  f.st = St::Runnable;
  f.obj = nullptr;
  f.deadline = kNoDeadline;
  f.woken = true;
}

void Quiesce() noexcept {
  Block("quiesce", &g_quiesce);
}

void SleepUntil(u64 deadline) noexcept {
  if (deadline <= g_now) {
    Point("sleep");
    return;
  }
  Block("sleep", g_cur, deadline);
}

#if defined(MC_TSAN)
void HbAcquire(const void* addr) noexcept {
  __tsan_acquire(const_cast<void*>(addr));
}
void HbRelease(const void* addr) noexcept {
  __tsan_release(const_cast<void*>(addr));
}
void NoteLoad(const void* addr, int) noexcept {
  auto& f = *g_cur;
  for (u32 i = 0; i < f.nnotes; ++i) {
    if (f.notes[i] == addr) {
      return;
    }
  }
  if (f.nnotes == kMaxNotes) {
    f.nnotes = 0;
  }
  f.notes[f.nnotes++] = addr;
}
bool ReleaseFenceActive() noexcept {
  return g_cur->rel_fence;
}
void Fence(int order) noexcept {
  Point("fence");
  auto o = static_cast<std::memory_order>(order);
  if (o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst ||
      o == std::memory_order_consume) {
    auto& f = *g_cur;
    for (u32 i = 0; i < f.nnotes; ++i) {
      __tsan_acquire(const_cast<void*>(f.notes[i]));
    }
    f.nnotes = 0;
  }
  if (o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst) {
    g_cur->rel_fence = true;
  }
}
#else
void HbAcquire(const void*) noexcept {
}
void HbRelease(const void*) noexcept {
}
void NoteLoad(const void*, int) noexcept {
}
bool ReleaseFenceActive() noexcept {
  return false;
}
void Fence(int) noexcept {
  Point("fence");
}
#endif

void Register(Scenario* s) noexcept {
  s->next = g_scenarios;
  g_scenarios = s;
}

namespace {

bool HasTag(const char* tags, const char* tag) {
  auto n = std::strlen(tag);
  for (const char* p = tags; p != nullptr && *p != 0;) {
    if (std::strncmp(p, tag, n) == 0 && (p[n] == 0 || p[n] == ',')) {
      return true;
    }
    p = std::strchr(p, ',');
    if (p != nullptr) {
      ++p;
    }
  }
  return false;
}

double Wall() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void OnHang(int) {
  Fail("", "hang: 20 s of CPU time without finishing one case");
}

void ArmHang() {
  itimerval t{};
  t.it_value.tv_sec = 20;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

void RunOnce() noexcept {
  g_steps = 0;
  g_now = 1'000'000'000;
  g_switches = 0;
  g_preempts = 0;
  g_sh->np = g_sh->ns = 0;
  g_pi = g_si = 0;
  g_nontrivial = false;
  g_ndesc = 0;
  g_sh->describe[0] = 0;
  g_lowprio = 900;
  g_burst = 0;
  auto& m = g_fibers[0];
  m.st = St::Runnable;
  m.deadline = kNoDeadline;
  m.obj = nullptr;
  m.consecutive = 0;
  m.nnotes = 0;
  m.rel_fence = false;
  if (!g_replay) {
    g_strategy = static_cast<u32>(Rnd() % 8);
    g_strategy = g_strategy < 4 ? 0 : g_strategy < 7 ? 1 : 2;
    static constexpr u32 kP[] = {2, 3, 5, 10, 30};
    g_pnum = kP[Rnd() % 5];
    static constexpr u32 kSpur[] = {0, 0, 8, 3};
    g_spur = kSpur[Rnd() % 4];
    g_tmode = static_cast<u32>(Rnd() % 3);
    g_nchange = static_cast<u32>(Rnd() % 5);
    for (u32 i = 0; i < g_nchange; ++i) {
      g_change[i] = 1 + static_cast<u32>(Rnd() % (g_len_est + 20));
    }
  }
  g_after = S(4) == 3;
  m.prio = g_replay ? 1 : 1000 + static_cast<u32>(Rnd() % 1000);
  g_in_case = true;
  g_scen->body();
  // everything that is still running has to finish
  while (true) {
    bool alive = false;
    for (u32 i = 1; i < kMaxFibers; ++i) {
      auto st = g_fibers[i].st;
      if (st == St::Runnable || st == St::Blocked) {
        alive = true;
      }
    }
    if (!alive) {
      break;
    }
    Block("end of the case", &m.end_token);
  }
  for (u32 i = 1; i < kMaxFibers; ++i) {
    if (g_fibers[i].st == St::Finished) {
      g_fibers[i].st = St::Free;
    }
  }
  g_in_case = false;
  g_len_est = (g_len_est * 7 + g_steps) / 8;
}

u64* g_seen;
u64 g_seen_n;
constexpr u64 kSeenCap = 1ULL << 24;

// The table may be shared by several workers
void Seen(u64 h) {
  if (h == 0) {
    h = 1;
  }
  u64 i = h & (kSeenCap - 1);
  for (u32 probes = 0; probes < 64; ++probes) {
    u64 was = __atomic_load_n(&g_seen[i], __ATOMIC_RELAXED);
    if (was == 0 && __atomic_compare_exchange_n(&g_seen[i], &was, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
      ++g_seen_n;
      return;
    }
    if (was == h) {
      return;
    }
    i = (i + 1) & (kSeenCap - 1);
  }
  // table full: not counted
}

void JsonStr(FILE* f, const char* s) {
  std::fputc('"', f);
  for (; *s != 0; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') {
      std::fputc('\\', f);
      std::fputc(c, f);
    } else if (c < 32 || c > 126) {
      std::fprintf(f, "\\u%04x", c);
    } else {
      std::fputc(c, f);
    }
  }
  std::fputc('"', f);
}

void ReadTape(const char* path, char* scen) {
  FILE* f = std::fopen(path, "r");
  if (f == nullptr) {
    std::fprintf(stderr, "no tape %s\n", path);
    _exit(3);
  }
  g_rp = static_cast<u32*>(std::calloc(kMaxP, 4));
  g_rs = static_cast<u32*>(std::calloc(kMaxS, 4));
  char word[256];
  int mode = 0;
  while (std::fscanf(f, "%255s", word) == 1) {
    if (std::strcmp(word, "scenario") == 0) {
      if (std::fscanf(f, "%63s", scen) != 1) {
        _exit(3);
      }
      mode = 0;
    } else if (std::strcmp(word, "P") == 0) {
      mode = 1;
    } else if (std::strcmp(word, "S") == 0) {
      mode = 2;
    } else if (word[0] == '#') {
      int c;
      while ((c = std::fgetc(f)) != EOF && c != '\n') {
      }
    } else if (mode == 1) {
      if (g_rp_n < kMaxP) {
        g_rp[g_rp_n++] = static_cast<u32>(std::strtoul(word, nullptr, 10));
      }
    } else if (mode == 2) {  // idx:val (sparse)
      char* e;
      u32 i = static_cast<u32>(std::strtoul(word, &e, 10));
      if (*e == ':' && i < kMaxS) {
        g_rs[i] = static_cast<u32>(std::strtoul(e + 1, nullptr, 10));
        if (i + 1 > g_rs_n) {
          g_rs_n = i + 1;
        }
      }
    }
  }
  std::fclose(f);
}

void Assertion(std::string_view file, std::size_t line, std::string_view, std::string_view cond,
               std::string_view msg) noexcept {
  auto pos = file.rfind('/');
  if (pos != std::string_view::npos) {
    file = file.substr(pos + 1);
  }
  Fail("", "library assertion: %.*s:%zu `%.*s` %.*s", (int)file.size(), file.data(), line, (int)cond.size(),
       cond.data(), (int)msg.size(), msg.data());
}

}  // namespace

int Main(int argc, char** argv) {
  const char *filter = "*", *state = nullptr, *out = nullptr, *seen = nullptr, *replay = nullptr;
  u64 seed = 1, start = 0, stride = 1, count = ~u64{0};
  double seconds = 5;
  for (int i = 1; i < argc; ++i) {
    auto is = [&](const char* n) {
      return std::strcmp(argv[i], n) == 0 && i + 1 < argc;
    };
    if (is("--filter")) {
      filter = argv[++i];
    } else if (is("--state")) {
      state = argv[++i];
    } else if (is("--out")) {
      out = argv[++i];
    } else if (is("--replay")) {
      replay = argv[++i];
    } else if (is("--seen")) {
      seen = argv[++i];
    } else if (is("--seed")) {
      seed = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--start")) {
      start = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--stride")) {
      stride = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--count")) {
      count = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--time")) {
      seconds = std::strtod(argv[++i], nullptr);
    } else if (std::strcmp(argv[i], "--verbose") == 0) {
      g_verbose = true;
    } else if (std::strcmp(argv[i], "--list") == 0) {
      for (auto* s = g_scenarios; s != nullptr; s = s->next) {
        std::printf("%s %s %u\n", s->name, s->tags, s->weight);
      }
      return 0;
    } else {
      std::fprintf(stderr, "bad argument %s\n", argv[i]);
      return 3;
    }
  }
  g_sh = &g_private;
  if (state != nullptr) {
    int fd = open(state, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
      return 3;
    }
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
    std::memset(g_sh, 0, offsetof(Shared, p));
  }
  CopyStr(g_sh->magic, 8, "mcstate");
  YACLIB_INIT_DEBUG(Assertion);

  for (u32 i = 0; i < kMaxFibers; ++i) {
    g_fibers[i].id = i;
    g_fibers[i].st = St::Free;
  }
  g_cur = &g_fibers[0];
  {
    pthread_attr_t attr;
    pthread_getattr_np(pthread_self(), &attr);
    void* b;
    std::size_t n;
    pthread_attr_getstack(&attr, &b, &n);
    pthread_attr_destroy(&attr);
    g_cur->asan_bottom = b;
    g_cur->asan_size = n;
  }
#if defined(MC_TSAN)
  g_cur->tsan = __tsan_get_current_fiber();
#endif
  signal(SIGVTALRM, OnHang);
  if (seen != nullptr) {
    int fd = open(seen, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, kSeenCap * 8) != 0) {
      return 3;
    }
    g_seen = static_cast<u64*>(mmap(nullptr, kSeenCap * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  } else {
    g_seen = static_cast<u64*>(
      mmap(nullptr, kSeenCap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }

  char replay_scen[64] = {};
  if (replay != nullptr) {
    ReadTape(replay, replay_scen);
    g_replay = true;
    filter = replay_scen;
    g_desc_on = true;
  }
  // weighted list of scenarios, in name order so that a case index means the same thing in every build
  Scenario* list[256];
  u32 ns = 0;
  for (auto* s = g_scenarios; s != nullptr; s = s->next) {
    if (std::strcmp(filter, "*") == 0 || HasTag(s->tags, filter) || HasTag(filter, s->name)) {
      if (ns < 256) {
        list[ns++] = s;
      }
    }
  }
  for (u32 i = 0; i < ns; ++i) {
    for (u32 j = i + 1; j < ns; ++j) {
      if (std::strcmp(list[j]->name, list[i]->name) < 0) {
        auto* t = list[i];
        list[i] = list[j];
        list[j] = t;
      }
    }
  }
  if (ns == 0) {
    std::fprintf(stderr, "no scenario for %s\n", filter);
    return 3;
  }
  u32 wsum = 0;
  for (u32 i = 0; i < ns; ++i) {
    wsum += list[i]->weight;
  }
  const double t0 = Wall();
  u64 done = 0, nontriv = 0, steps = 0, preempted = 0;
  char* samples[12] = {};
  u32 nsamples = 0;
  u64 sample_no = 0;
  for (u64 i = start; done < count; i += stride) {
    if (replay != nullptr && done == 1) {
      break;
    }
    if (replay == nullptr && Wall() - t0 > seconds) {
      break;
    }
    g_rng = Mix(Mix(seed, 0xC0FFEE), i);
    if (replay == nullptr) {
      u32 w = static_cast<u32>(Rnd() % wsum);
      u32 k = 0;
      while (w >= list[k]->weight) {
        w -= list[k]->weight;
        ++k;
      }
      g_scen = list[k];
    } else {
      g_scen = list[0];
    }
    CopyStr(g_sh->scenario, sizeof(g_sh->scenario), g_scen->name);
    CopyStr(g_sh->tags, sizeof(g_sh->tags), g_scen->tags);
    g_sh->index = i;
    ArmHang();
    ++g_case_no;
    // every scenario's samples are collected at sparse, fixed positions
    bool want_sample = replay == nullptr && nsamples < 12 && g_scen->nontrivial >= 20 * g_scen->failed + 3;
    g_desc_on = replay != nullptr || want_sample;
    auto seed_rng = g_rng;
    u64 live = g_live;
    g_sh->running = 1;
    RunOnce();
    if (g_live != live) {
      // lazily initialised statics are not leaks: only an imbalance that repeats is
      auto nt = g_nontrivial;
      g_rng = seed_rng;
      live = g_live;
      RunOnce();
      if (g_live != live) {
        char tags[128];
        std::snprintf(tags, sizeof(tags), "%s%s", g_scen->tags, HasTag(g_scen->tags, "C03") ? "" : ",C03");
        Fail(tags, "leak: %lld heap block(s) allocated by the case are still there at quiescence",
             (long long)(g_live - live));
      }
      g_nontrivial = nt || g_nontrivial;
    }
    g_sh->running = 0;
    ++done;
    ++g_scen->cases;
    steps += g_steps;
    preempted += g_switches != 0;
    if (g_nontrivial) {
      ++nontriv;
      ++g_scen->nontrivial;
      u64 h = 1;
      for (const char* c = g_scen->name; *c != 0; ++c) {
        h = Mix(h, static_cast<unsigned char>(*c));
      }
      for (u32 k = 0; k < g_sh->np; ++k) {
        h = Mix(h, g_sh->p[k]);
      }
      for (u32 k = 0; k < g_sh->ns; ++k) {
        if (g_sh->s[k] != 0) {
          h = Mix(h, (u64{k} << 32) | g_sh->s[k]);
        }
      }
      Seen(h);
      if (want_sample && g_sh->describe[0] != 0) {
        ++sample_no;
        char buf[1200];
        int n = std::snprintf(buf, sizeof(buf), "%s: %s | steps=%llu switches=%u", g_scen->name, g_sh->describe,
                              (unsigned long long)g_steps, g_switches);
        samples[nsamples] = static_cast<char*>(std::malloc(n + 1));
        CopyStr(samples[nsamples], n < 1199 ? n + 1 : 1199, buf);
        ++nsamples;
        ++g_scen->failed;  // = number of samples taken from this scenario
      }
    }
    g_sh->cases = done;
    g_sh->nontrivial = nontriv;
    g_sh->distinct = g_seen_n;
  }
  if (out != nullptr) {
    FILE* f = std::fopen(out, "w");
    std::fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"steps\":%llu,\"switched\":%llu,\"wall\":%.3f,",
                 (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)g_seen_n,
                 (unsigned long long)steps, (unsigned long long)preempted, Wall() - t0);
    std::fprintf(f, "\"scenarios\":{");
    for (u32 i = 0; i < ns; ++i) {
      std::fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", list[i]->name, (unsigned long long)list[i]->cases,
                   (unsigned long long)list[i]->nontrivial);
    }
    std::fprintf(f, "},\"labels\":{");
    for (u32 i = 0; i < g_nlabels; ++i) {
      std::fprintf(f, "%s", i ? "," : "");
      char key[300];
      std::snprintf(key, sizeof(key), "%s/%s", g_labels[i].scen, g_labels[i].name);
      JsonStr(f, key);
      std::fprintf(f, ":%llu", (unsigned long long)g_labels[i].n);
    }
    std::fprintf(f, "},\"samples\":[");
    for (u32 i = 0; i < nsamples; ++i) {
      std::fprintf(f, "%s", i ? "," : "");
      JsonStr(f, samples[i]);
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }
  if (replay != nullptr) {
    std::fprintf(stderr, "REPLAY ok: %s\n", g_sh->describe);
  }
  return 0;
}

}  // namespace mc

#if defined(MC_TSAN)
extern "C" void __tsan_on_report(void*) {
  mc::Fail("+C04", "data race (see the ThreadSanitizer report)");
}
#endif

// ------------------------------------------------------------------ virtual time for the std clocks
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point{nanoseconds{static_cast<long long>(mc::Now())}};
}
system_clock::time_point system_clock::now() noexcept {
  return time_point{nanoseconds{static_cast<long long>(mc::Now() + 1'600'000'000'000'000'000ULL)}};
}
}  // namespace _V2
}  // namespace std::chrono

// ------------------------------------------------------------------ counted allocations
#if !defined(MC_TSAN)
namespace {
inline void* CountedAlloc(std::size_t n, std::size_t align) {
  void* p = align <= alignof(std::max_align_t) ? std::malloc(n == 0 ? 1 : n)
                                                : std::aligned_alloc(align, (n + align - 1) / align * align);
  if (p == nullptr) {
    std::abort();
  }
  ++mc::g_live;
  ++mc::g_total;
  return p;
}
inline void CountedFree(void* p) noexcept {
  if (p != nullptr) {
    --mc::g_live;
    std::free(p);
  }
}
}  // namespace

void* operator new(std::size_t n) {
  return CountedAlloc(n, 0);
}
void* operator new[](std::size_t n) {
  return CountedAlloc(n, 0);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return CountedAlloc(n, 0);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return CountedAlloc(n, 0);
}
void* operator new(std::size_t n, std::align_val_t a) {
  return CountedAlloc(n, static_cast<std::size_t>(a));
}
void* operator new[](std::size_t n, std::align_val_t a) {
  return CountedAlloc(n, static_cast<std::size_t>(a));
}
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
  return CountedAlloc(n, static_cast<std::size_t>(a));
}
void operator delete(void* p) noexcept {
  CountedFree(p);
}
void operator delete[](void* p) noexcept {
  CountedFree(p);
}
void operator delete(void* p, std::size_t) noexcept {
  CountedFree(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  CountedFree(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
  CountedFree(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  CountedFree(p);
}
void operator delete(void* p, std::align_val_t) noexcept {
  CountedFree(p);
}
void operator delete[](void* p, std::align_val_t) noexcept {
  CountedFree(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  CountedFree(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
  CountedFree(p);
}

#endif

int main(int argc, char** argv) {
  return mc::Main(argc, argv);
}
