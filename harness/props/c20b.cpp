// C20: combinators allocate a constant number of blocks; waiting, Get, strands and co_await allocate nothing
#include "coro.hpp"

#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>

#include <array>
#include <chrono>
#include <cstring>
#include <deque>
#include <tuple>

namespace {

using namespace h;
using mc::u32;
using yaclib::FailPolicy;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::Task;

// any fixed number is fine for the property; today the most is 4 (contract, combinator, pointers, output)
constexpr int kConstant = 8;

enum What { aNone, aFirst, jNone, jFirst, yNone, yFirst, yLast, kWhats };
const char* const kWhat[] = {"WhenAll<None>", "WhenAll<FirstFail>", "Join<None>", "Join<FirstFail>", "WhenAny<None>", "WhenAny<FirstFail>", "WhenAny<LastFail>"};

template <typename Fs>
auto With(u32 what, Fs&& f) {
  switch (what) {
    case aNone:
      return f([](auto&&... a) {
        return yaclib::WhenAll<FailPolicy::None>(std::forward<decltype(a)>(a)...);
      });
    case aFirst:
      return f([](auto&&... a) {
        return yaclib::WhenAll<FailPolicy::FirstFail>(std::forward<decltype(a)>(a)...);
      });
    case jNone:
      return f([](auto&&... a) {
        return yaclib::Join<FailPolicy::None>(std::forward<decltype(a)>(a)...);
      });
    case jFirst:
      return f([](auto&&... a) {
        return yaclib::Join<FailPolicy::FirstFail>(std::forward<decltype(a)>(a)...);
      });
    case yNone:
      return f([](auto&&... a) {
        return yaclib::WhenAny<FailPolicy::None>(std::forward<decltype(a)>(a)...);
      });
    case yFirst:
      return f([](auto&&... a) {
        return yaclib::WhenAny<FailPolicy::FirstFail>(std::forward<decltype(a)>(a)...);
      });
    default:
      return f([](auto&&... a) {
        return yaclib::WhenAny<FailPolicy::LastFail>(std::forward<decltype(a)>(a)...);
      });
  }
}

template <typename T, typename F>
struct Set {
  std::vector<F> fs;
  std::vector<Promise<T, Err>> ps;
  std::vector<Out> outs;
  std::vector<u32> order;

  void Make(std::size_t n, u32 failing, u32 ready, Exe& e) {
    fs.reserve(n);
    ps.reserve(n);
    for (std::size_t i = 0; i < n; ++i) {
      if constexpr (std::is_same_v<F, Future<T, Err>>) {
        auto [f, p] = yaclib::MakeContract<T, Err>();
        fs.push_back(std::move(f));
        ps.push_back(std::move(p));
      } else {
        auto [f, p] = yaclib::MakeContractOn<T, Err>(e);
        fs.push_back(std::move(f));
        ps.push_back(std::move(p));
      }
      // failing: 0 nothing fails, 1 everything, 2 some, 3 only the last one
      bool bad = failing == 1 || (failing == 3 && i + 1 == n);
      if (failing == 2) {
        bad = i < 24 ? PB() : i % 3 == 0;
      }
      const int payload = static_cast<int>(i) + 1;
      outs.push_back(bad ? (i % 2 == 0 ? Out{kErr, payload} : Out{kExc, payload}) : Out{kVal, payload});
      // ready: 0 nothing, 1 everything, 2 some
      if (ready == 1 || (ready == 2 && (i < 24 ? PB() : i % 2 == 0))) {
        One(i);
      }
      order.push_back(static_cast<u32>(i));
    }
    for (std::size_t i = n; i > 1 && i + 24 > n; --i) {
      std::swap(order[i - 1], order[P(static_cast<u32>(i))]);
    }
  }
  void One(std::size_t i) {
    if (ps[i].Valid()) {
      Fulfil<T>(std::move(ps[i]), outs[i], false);
    }
  }
  void Rest() {
    for (u32 i : order) {
      One(i);
    }
  }
};

template <typename V>
int Check(const Result<V, Err>& r) {
  return static_cast<int>(r.State());
}

template <typename T, typename F>
void Dynamic(u32 what, std::size_t n) {
  Exe exe{1, 0};
  Set<T, F> set;
  const u32 failing = P(4), ready = P(3);
  const bool count = PB(), drop = P(4) == 3;
  mc::Describe("%s(%s) of %d futures, failing %u, ready %u%s", kWhat[what], count ? "begin, n" : "begin, end", static_cast<int>(n), failing, ready,
               drop ? ", output dropped" : "");
  set.Make(n, failing, ready, exe);
  mc::u64 before = mc::TotalNews();
  With(what, [&](auto when) {
    auto run = [&](auto&& out) {
      if (drop) {
        {
          auto gone = std::move(out);
        }
        set.Rest();
        return;
      }
      set.Rest();
      auto r = std::move(out).Get();
      MC_CHECK(r.State() != yaclib::ResultState::Empty, "no result");
    };
    if (count) {
      run(when(set.fs.begin(), n));
    } else {
      run(when(set.fs.begin(), set.fs.end()));
    }
  });
  const int got = static_cast<int>(mc::TotalNews() - before);
  MC_CHECK(got <= kConstant, "%s of %d futures allocated %d blocks", kWhat[what], static_cast<int>(n), got);
  if (n >= 3) {
    mc::NonTrivial();
  }
  char b[32];
  std::snprintf(b, sizeof b, "%d blocks", got);
  mc::Label(b);
}

MC_SCENARIO(combinators, "C20", 2) {
  Quiet quiet;
  const u32 what = P(kWhats);
  static constexpr int kN[] = {1, 2, 3, 5, 9, 17, 33, 64, 100, 160};
  const std::size_t n = static_cast<std::size_t>(kN[P(10)]) + P(3);
  const u32 t = P(4);
  switch (t) {
    case 0:
      return Dynamic<Val, Future<Val, Err>>(what, n);
    case 1:
      return Dynamic<void, Future<void, Err>>(what, n);
    case 2:
      return Dynamic<Val, FutureOn<Val, Err>>(what, n);
    default:
      return Dynamic<int, Future<int, Err>>(what, n);
  }
}

struct DVal : Val {
  DVal() noexcept : Val{-7} {
  }
  explicit DVal(int v) noexcept : Val{v} {
  }
};

struct DMVal : MVal {
  DMVal() noexcept : MVal{-8} {
  }
  explicit DMVal(int v) noexcept : MVal{v} {
  }
};

MC_SCENARIO(variadic, "C20", 1) {
  Quiet quiet;
  const u32 what = P(kWhats);
  const u32 n = 1 + P(8);
  const bool mixed = P(3) == 2 && n >= 2;
  Exe exe{1, 0};
  Set<DVal, Future<DVal, Err>> a;
  Set<DMVal, Future<DMVal, Err>> b;
  const u32 failing = P(4), ready = P(3);
  a.Make(n, failing, ready, exe);
  b.Make(mixed ? 2 : 0, failing, ready, exe);
  mc::Describe("%s(f...) of %u futures%s, failing %u, ready %u", kWhat[what], n, mixed ? " + 2 of another type" : "", failing, ready);
  const mc::u64 before = mc::TotalNews();
  With(what, [&](auto when) {
    auto go = [&](auto&& out) {
      a.Rest();
      b.Rest();
      auto r = std::move(out).Get();
      MC_CHECK(r.State() != yaclib::ResultState::Empty, "no result");
    };
    auto& f = a.fs;
    if (mixed) {
      switch (n) {
        case 2:
          return go(when(std::move(f[0]), std::move(b.fs[0]), std::move(f[1]), std::move(b.fs[1])));
        case 3:
          return go(when(std::move(b.fs[0]), std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(b.fs[1])));
        default:
          break;
      }
      if (n == 4) {
        return go(when(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(b.fs[0]), std::move(b.fs[1])));
      }
    }
    switch (n) {
      case 1:
        return go(when(std::move(f[0])));
      case 2:
        return go(when(std::move(f[0]), std::move(f[1])));
      case 3:
        return go(when(std::move(f[0]), std::move(f[1]), std::move(f[2])));
      case 4:
        return go(when(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3])));
      case 5:
        return go(when(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4])));
      case 6:
        return go(when(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4]), std::move(f[5])));
      case 7:
        return go(when(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4]), std::move(f[5]), std::move(f[6])));
      default:
        return go(
          when(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4]), std::move(f[5]), std::move(f[6]), std::move(f[7])));
    }
  });
  const int got = static_cast<int>(mc::TotalNews() - before);
  MC_CHECK(got <= kConstant, "%s of %u futures allocated %d blocks", kWhat[what], n, got);
  if (n >= 3) {
    mc::NonTrivial();
  }
  char l[32];
  std::snprintf(l, sizeof l, "%d blocks", got);
  mc::Label(l);
}

// ------------------------------------------------------------------ waiting
template <typename T, typename F>
void Waits() {
  Exe exe{1, 0};
  static constexpr int kN[] = {1, 2, 3, 4, 7, 16, 40, 90};
  std::size_t n = static_cast<std::size_t>(kN[P(8)]);
  Set<T, F> set;
  const u32 ready = P(3), kind = P(12), timeouts = 1 + P(2);
  static constexpr long kT[] = {0, -3, 1, 50, 1000};
  const std::chrono::nanoseconds t{kT[P(5)]};
  set.Make(n, P(4), ready, exe);
  mc::Describe("wait kind %u on %d futures, ready %u, timeout %ld", kind, static_cast<int>(n), ready, static_cast<long>(t.count()));
  h::Thread setter;
  const bool blocking = kind < 4 || kind >= 9;
  bool threaded = false;
  auto& f = set.fs;
  mc::u64 before = mc::TotalNews();
  if (!blocking) {
    // nobody fulfils anything: the wait times out
    for (u32 i = 0; i < timeouts; ++i) {
      bool ok = false;
      switch (kind) {
        case 4:
          ok = n == 1 ? yaclib::WaitFor(t, f[0]) : n == 2 ? yaclib::WaitFor(t, f[0], f[1]) : yaclib::WaitFor(t, f[0], f[1], f[2]);
          break;
        case 5:
          ok = yaclib::WaitFor(t, f.begin(), f.end());
          break;
        case 6:
          ok = yaclib::WaitFor(t, f.begin(), n);
          break;
        case 7:
          ok = n == 1 ? yaclib::WaitUntil(std::chrono::steady_clock::now() + t, f[0])
                      : yaclib::WaitUntil(std::chrono::steady_clock::now() + t, f[0], f[1]);
          break;
        default:
          ok = yaclib::WaitUntil(std::chrono::steady_clock::now() + t, f.begin(), f.end());
      }
      MC_CHECK(ready != 1 || ok, "a wait for ready futures timed out");
    }
    mc::Label("timed out");
  }
  if (ready != 1) {
    threaded = true;
    const mc::u64 so_far = mc::TotalNews() - before;
    setter = h::Thread{[&] {
      set.Rest();
    }};
    before = mc::TotalNews() - so_far;
  }
  switch (kind) {
    case 0:
      n == 1 ? yaclib::Wait(f[0]) : n == 2 ? yaclib::Wait(f[0], f[1]) : n == 3 ? yaclib::Wait(f[0], f[1], f[2]) : yaclib::Wait(f[0], f[1], f[2], f[3]);
      break;
    case 1:
      yaclib::Wait(f.begin(), f.end());
      break;
    case 2:
      yaclib::Wait(f.begin(), n);
      break;
    case 3:
      for (auto& x : f) {
        yaclib::Wait(x);
      }
      break;
    case 9: {
      bool ok = yaclib::WaitFor(std::chrono::hours{1}, f.begin(), n);
      mc::Label(ok ? "WaitFor" : "WaitFor expired");
      break;
    }
    default:
      break;
  }
  for (std::size_t i = 0; i < n; ++i) {
    auto r = std::move(f[i]).Get();
    MC_CHECK(OutOf(r) == Norm<T>(set.outs[i]), "wrong result");
  }
  const int got = static_cast<int>(mc::TotalNews() - before);
  MC_CHECK(got == 0, "waiting for %d futures and taking their results allocated %d block(s)", static_cast<int>(n), got);
  if (threaded) {
    setter.join();
    mc::NonTrivial();
  }
}

MC_SCENARIO(waits, "C20", 2) {
  Quiet quiet;
  switch (P(4)) {
    case 0:
      return Waits<Val, Future<Val, Err>>();
    case 1:
      return Waits<void, Future<void, Err>>();
    case 2:
      return Waits<MVal, FutureOn<MVal, Err>>();
    default:
      return Waits<Val, FutureOn<Val, Err>>();
  }
}

// ------------------------------------------------------------------ strands
MC_SCENARIO(strand, "C20", 1) {
  Quiet quiet;
  const int under_kind = static_cast<int>(P(3));  // inline, manual, refusing
  Exe exe{2, 0, under_kind == 2 ? static_cast<int>(P(4)) : 1 << 20};
  auto* manual = new yaclib::ManualExecutor();
  yaclib::IExecutor* under = under_kind == 1 ? static_cast<yaclib::IExecutor*>(manual) : &exe;
  {
    const u32 depth = 1 + P(2);
    yaclib::IExecutorPtr s = yaclib::MakeStrand(under);
    if (depth == 2) {
      s = yaclib::MakeStrand(s);
    }
    const u32 n = 1 + P(20);
    mc::Describe("%u jobs to a strand (depth %u) over executor kind %d", n, depth, under_kind);
    std::deque<CJob> jobs(n);
    struct Again {
      yaclib::IExecutor* to;
      CJob* next;
    };
    std::deque<Again> again;
    for (u32 i = 0; i < n; ++i) {
      // some jobs submit the next one themselves
      if (i + 1 < n && P(4) == 3) {
        again.push_back({s.Get(), &jobs[i + 1]});
        jobs[i].ctx = &again.back();
        jobs[i].on_call = [](CJob& j) {
          auto* a = static_cast<Again*>(j.ctx);
          a->to->Submit(*a->next);
        };
        jobs[i].on_drop = jobs[i].on_call;
        ++i;
        if (i + 1 == n) {
          break;
        }
      }
    }
    std::vector<int> submitted(n, 0);
    for (u32 i = 0; i + 1 < n; ++i) {
      if (jobs[i].on_call) {
        submitted[i + 1] = 1;
      }
    }
    const mc::u64 before = mc::TotalNews();
    for (u32 i = 0; i < n; ++i) {
      if (submitted[i] == 0) {
        s->Submit(jobs[i]);
      }
      if (i % 3 == 2) {
        static_cast<void>(manual->Drain());
      }
    }
    while (manual->Drain() != 0) {
    }
    const int got = static_cast<int>(mc::TotalNews() - before);
    MC_CHECK(got == 0, "submitting %u existing jobs to a strand allocated %d block(s)", n, got);
    for (auto& j : jobs) {
      MC_CHECK(j.Done() == 1, "a job was finished %d times", j.Done());
    }
    if (n >= 2) {
      mc::NonTrivial();
    }
  }
  delete manual;
}

// ------------------------------------------------------------------ co_await
struct AwaitCase {
  u32 kind = 0;
  Exe* exe = nullptr;
  mc::u64 before = 0, after = 0;
  bool done = false;
};

template <typename T, typename F>
Future<void, Err> Awaiter(AwaitCase& c, std::vector<F>& f, std::vector<Out>& outs) {
  Tok tok;
  const std::size_t n = f.size();
  std::size_t taken = 0;
  c.before = mc::TotalNews();
  switch (c.kind) {
    case 0:
      co_await yaclib::Await(f.begin(), f.end());
      break;
    case 1:
      co_await yaclib::Await(f.begin(), n);
      break;
    case 2:
      if (n == 1) {
        co_await yaclib::Await(f[0]);
      } else if (n == 2) {
        co_await yaclib::Await(f[0], f[1]);
      } else {
        co_await yaclib::Await(f[0], f[1], f[2]);
      }
      break;
    case 3:
      co_await yaclib::AwaitOn(*c.exe, f.begin(), n);
      break;
    case 4:
      if (n == 1) {
        co_await yaclib::AwaitOn(*c.exe, f[0]);
      } else {
        co_await yaclib::AwaitOn(*c.exe, f[0], f[1]);
      }
      break;
    case 5:
      co_await yaclib::AwaitSticky(f.begin(), f.end());
      break;
    case 6:
      co_await yaclib::AwaitInline(f.begin(), f.end());
      break;
    case 7:
      if (n == 1) {
        co_await yaclib::AwaitSticky(f[0]);
      } else {
        co_await yaclib::AwaitSticky(f[0], f[1]);
      }
      break;
    default:
      break;
  }
  for (; taken < n; ++taken) {
    Out got;
    try {
      if constexpr (std::is_void_v<T>) {
        co_await std::move(f[taken]);
        got = {kVal, 0};
      } else {
        auto v = co_await std::move(f[taken]);
        got = {kVal, v.Get()};
      }
    } catch (...) {
      got = OutOfCurrent();
    }
    MC_CHECK(got == Norm<T>(outs[taken]), "co_await gave %s", Str(got).c_str());
  }
  c.after = mc::TotalNews();
  c.done = true;
  co_return {};
}

template <typename T, typename F>
void Awaits() {
  Exe exe{2, 0};
  AwaitCase c;
  c.exe = &exe;
  c.kind = P(9);
  static constexpr int kN[] = {1, 2, 3, 6, 20, 60};
  const std::size_t n = static_cast<std::size_t>(kN[P(6)]);
  Set<T, F> set;
  const u32 ready = P(3), failing = P(4);
  set.Make(n, failing, ready, exe);
  mc::Describe("co_await kind %u of %d futures, ready %u, failing %u", c.kind, static_cast<int>(n), ready, failing);
  {
    auto f = Awaiter<T, F>(c, set.fs, set.outs);
    set.Rest();
    auto r = std::move(f).Get();
    MC_CHECK(r.State() == yaclib::ResultState::Value && c.done, "the coroutine did not finish");
  }
  MC_CHECK(c.after == c.before, "co_await of %d futures allocated %d block(s)", static_cast<int>(n), static_cast<int>(c.after - c.before));
  if (ready != 1) {
    mc::NonTrivial();
  }
}

MC_SCENARIO(awaits, "C20", 2) {
  Quiet quiet;
  switch (P(4)) {
    case 0:
      return Awaits<Val, Future<Val, Err>>();
    case 1:
      return Awaits<void, Future<void, Err>>();
    case 2:
      return Awaits<MVal, FutureOn<MVal, Err>>();
    default:
      return Awaits<void, FutureOn<void, Err>>();
  }
}

// ------------------------------------------------------------------ size of captures and values
template <std::size_t N, std::size_t A>
struct alignas(A) Bulk {
  std::array<unsigned char, N> bytes;
  Tok tok;
  explicit Bulk(int seed) {
    bytes.fill(static_cast<unsigned char>(seed));
  }
  void Check(int seed) const {
    tok.Alive();
    MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % A == 0, "an over-aligned capture is not aligned");
    for (auto b : bytes) {
      MC_CHECK(b == static_cast<unsigned char>(seed), "a capture was damaged");
    }
  }
};

int Plain(int x) {
  return x + 1;
}

template <std::size_t N, std::size_t A>
auto BulkFn(int seed) {
  return [b = Bulk<N, A>{seed}, seed](int x) {
    b.Check(seed);
    return x + 1;
  };
}
template <std::size_t N, std::size_t A>
auto BulkMoveFn(int seed) {
  return [b = Bulk<N, A>{seed}, seed, m = MVal{seed}](Result<int, Err>&& x) {
    b.Check(seed);
    MC_CHECK(m.Get() == seed, "a move-only capture was damaged");
    return std::move(x);
  };
}

struct Shaped {
  yaclib::IExecutor* e;
  int steps = 0;

  template <typename H, typename Fn>
  auto Step(H&& h, Fn&& fn, u32 form) {
    ++steps;
    if (form == 0) {
      return Future<int, Err>{std::move(h).ThenInline(std::forward<Fn>(fn))};
    }
    return std::move(h).Then(*e, std::forward<Fn>(fn)).On(nullptr);
  }
  Future<int, Err> Pick(Future<int, Err>&& f, u32 shape, u32 form) {
    switch (shape) {
      case 0:
        return Step(std::move(f), BulkFn<1, 4>(3), form);
      case 1:
        return Step(std::move(f), BulkFn<24, 8>(4), form);
      case 2:
        return Step(std::move(f), BulkFn<200, 8>(5), form);
      case 3:
        return Step(std::move(f), BulkFn<4000, 8>(6), form);
      case 4:
        return Step(std::move(f), BulkFn<64, 64>(7), form);
      case 5:
        return Step(std::move(f), BulkMoveFn<48, 16>(8), form);
      case 6:
        return Step(std::move(f), BulkMoveFn<1000, 4>(9), form);
      case 7:
        return Step(std::move(f), Plain, form);
      case 8:
        return Step(std::move(f), &Plain, form);
      case 9: {  // a lambda without captures
        return Step(
          std::move(f),
          [](int x) {
            return x;
          },
          form);
      }
      default: {  // an lvalue functor with state
        auto fn = BulkFn<32, 8>(11);
        return Step(std::move(f), fn, form);
      }
    }
  }
};

MC_SCENARIO(shapes, "C20", 1) {
  Quiet quiet;
  Exe exe{2, 0};
  Shaped s{&exe};
  const u32 src = P(6), n = 1 + P(6);
  u32 shape[8], form[8];
  std::string d = "source " + std::to_string(src) + ":";
  for (u32 i = 0; i < n; ++i) {
    shape[i] = P(11);
    form[i] = P(2);
    d += " " + std::to_string(shape[i]) + (form[i] != 0 ? "@e" : "");
  }
  mc::Describe("%s", d.c_str());
  Promise<int, Err> later;
  const mc::u64 before = mc::TotalNews();
  {
    Future<int, Err> f;
    auto bulk = BulkFn<120, 8>(21);
    auto first = [b = Bulk<300, 32>{22}] {
      b.Check(22);
      return 1;
    };
    ++s.steps;
    switch (src) {
      case 0:
        f = yaclib::MakeFuture<int, Err>(1);
        break;
      case 1: {
        auto [x, p] = yaclib::MakeContract<int, Err>();
        f = std::move(x);
        later = std::move(p);
        break;
      }
      case 2:
        f = yaclib::Run<Err>(first);
        break;
      case 3:
        f = yaclib::Run<Err>(exe, std::move(first)).On(nullptr);
        break;
      case 4:
        ++s.steps;
        f = yaclib::Schedule<Err>(exe, std::move(first)).Then(std::move(bulk)).ToFuture();
        break;
      default:
        ++s.steps;
        f = yaclib::MakeTask<int, Err>(1).Then(exe, bulk).ToFuture();
    }
    for (u32 i = 0; i < n; ++i) {
      f = s.Pick(std::move(f), shape[i], form[i]);
    }
    if (later.Valid()) {
      std::move(later).Set(1);
    }
    auto r = std::move(f).Get();
    MC_CHECK(r.State() == yaclib::ResultState::Value, "the pipeline failed");
  }
  const int got = static_cast<int>(mc::TotalNews() - before);
  MC_CHECK(got <= s.steps, "%d steps allocated %d blocks", s.steps, got);
  if (n >= 2) {
    mc::NonTrivial();
  }
}

}  // namespace
