// C13: coroutines resume once, after the awaited event, with its outcome, where asked
#pragma once

#include "coro.hpp"

#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>

#include <deque>
#include <functional>
#include <optional>

namespace {

using namespace h;
using yaclib::Future;
using yaclib::IExecutor;
using yaclib::IExecutorPtr;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedPromise;
using yaclib::Task;

using R = Result<Val, Err>;

// a failure that escapes a coroutine is stored as an exception
constexpr int kEscaped = 5000;
Out AsEscaped(const Out& o) {
  return o.kind == kErr ? Out{kExc, kEscaped + o.v} : o;
}
Out OutOf13(const R& r) {
  if (r.State() == yaclib::ResultState::Exception) {
    try {
      std::rethrow_exception(r.Exception());
    } catch (...) {
      return AsEscaped(OutOfCurrent());
    }
  }
  return OutOf(r);
}

struct Site {
  IExecutor* exe;
  int id;     // what CurExe() says inside
  int under;  // index of the Exe that may refuse
};

enum SrcKind {
  kContract,
  kContractOn,
  kReadyFuture,
  kCoFuture,
  kRunFuture,
  kVoidContract,
  kSharedContract,
  kCoShared,
  kCoTask,
  kMakeTask,
  kSchedule,
  kLazyContract,
  kTaskThen,
  kSrcKinds
};
const char* const kSrcName[] = {"contract",  "contractOn", "ready",    "co Future", "Run",          "void contract", "shared contract",
                                "co Shared", "co Task",    "MakeTask", "Schedule",  "LazyContract", "Task.Then"};

struct Src {
  int kind = 0;
  Out out;
  int site = 0;
  mc::u32 how = 0;
  Counter started{0};
  Counter done{0};
  Counter at{-1};  // the Exe whose refusal this one may be waiting for
  Side side;
  std::optional<Future<Val, Err>> f;
  std::optional<Future<void, Err>> fv;
  std::optional<SharedFuture<Val, Err>> sh;
  std::optional<Task<Val, Err>> t;
  std::optional<Promise<Val, Err>> p;
  std::optional<Promise<void, Err>> pv;
  std::optional<SharedPromise<Val, Err>> sp;
};

enum StepKind { sOn, sYield, sYieldExe, sTake, sTakeShared, sTakeTask, sOne, sOneShared, sMany, sRange, sRangeShared, sAwaitTask, sSteps };
const char* const kStepName[] = {"On", "kYield", "Yield()", "co_await future", "co_await shared", "co_await task", "await one", "await one shared",
                                 "await many", "await range", "await shared range", "Await(task)"};
const char* const kFam[] = {"Await", "AwaitInline", "AwaitOn", "AwaitSticky"};

struct Step {
  mc::u32 kind = 0;
  mc::u32 fam = 0;
  int site = 0;
  mc::u32 combo = 0;
  bool form = false;
  bool guarded = true;  // failures are caught right away
  mc::u32 after = 0;
  std::vector<int> srcs;
};

struct Co {
  std::vector<Step> plan;
  mc::u32 ret = 0;
  int payload = 0;
  Out out;
  int start_site = -1;
  Counter started{0};
  Counter finished{0};
  Counter at{-1};
  Counter escaping{-1};
  Counter resumed[8]{};
  Counter observed{0};
  Counter seen_kind[3]{}, seen_v[3]{};
};

struct World {
  std::deque<Exe> exes;
  std::vector<IExecutorPtr> strands;
  std::vector<Site> sites;
  std::deque<Src> srcs;
  std::deque<Co> cos;

  int SiteOf(const IExecutor* e) const {
    for (std::size_t i = 0; i < sites.size(); ++i) {
      if (sites[i].exe == e) {
        return static_cast<int>(i);
      }
    }
    return -1;
  }
  int UnderOf(const IExecutor* e) const {
    const int s = SiteOf(e);
    return s < 0 ? -1 : sites[s].under;
  }
  void Done(Src& s) {
    s.side.Write(7);
    MC_CHECK(Inc(s.done) == 1, "harness: a source was fulfilled twice");
  }
  // the coroutine saw this outcome of this source
  void Saw(Src& s, const Out& got, const char* who) {
    if (Ld(s.done) != 0) {
      const Out want = s.kind == kVoidContract ? Norm<void>(s.out) : s.out;
      MC_CHECK(got == want, "%s of %s: the coroutine received %s instead of %s", who, kSrcName[s.kind], Str(got).c_str(), Str(want).c_str());
      s.side.Expect(7, who);
    } else {
      const int at = Ld(s.at);
      MC_CHECK(got == kStop && at >= 0 && Ld(exes[at].drops) > 0,
               "%s of %s: the coroutine resumed with %s before what it awaited happened", who, kSrcName[s.kind], Str(got).c_str());
    }
  }
  // awaited, its outcome is not known yet
  void Happened(Src& s, const char* who) {
    if (Ld(s.done) != 0) {
      s.side.Expect(7, who);
      return;
    }
    const int at = Ld(s.at);
    MC_CHECK(at >= 0 && Ld(exes[at].drops) > 0, "%s of %s: the coroutine resumed before what it awaited happened", who, kSrcName[s.kind]);
  }
};

template <typename Ret>
Ret Nested(World* w, Src* s) {
  Tok tok;
  if (s->how % 3 != 0) {
    auto& site = w->sites[s->site];
    St(s->at, site.under);
    co_await yaclib::On(*site.exe);
    MC_CHECK(CurExe() == site.id, "On: runs on executor %d instead of %d", CurExe(), site.id);
  }
  if (s->how % 2 != 0) {
    auto& e = co_await yaclib::CurrentExecutor();
    St(s->at, w->UnderOf(&e));
    co_await yaclib::kYield;
  }
  std::ignore = tok.Alive();
  w->Done(*s);
  switch (s->out.kind) {
    case kVal:
      co_return Val{s->out.v};
    case kExc:
      if (s->how % 5 < 3) {
        throw Ex{s->out.v};
      }
      co_return std::make_exception_ptr(Ex{s->out.v});
    default:
      if (s->out == kStop) {
        co_return yaclib::StopTag{};
      }
      co_return Err{s->out.v};
  }
}

void MakeSrc(World& w, Src& s) {
  auto& site = w.sites[s.site];
  auto functor = [&w, &s, tok = Tok{}]() -> R {
    std::ignore = tok.Alive();
    w.Done(s);
    if (s.out.kind == kExc && s.how % 2 == 0) {
      throw Ex{s.out.v};
    }
    return ResOf<Val>(s.out);
  };
  switch (s.kind) {
    case kContract: {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      s.f.emplace(std::move(f));
      s.p.emplace(std::move(p));
    } break;
    case kContractOn: {
      auto [f, p] = yaclib::MakeContractOn<Val, Err>(*site.exe);
      s.f.emplace(std::move(f).On(nullptr));
      s.p.emplace(std::move(p));
    } break;
    case kReadyFuture:
      w.Done(s);
      s.f.emplace(yaclib::MakeFuture<Val, Err>(ResOf<Val>(s.out)));
      break;
    case kCoFuture:
      St(s.started, 1);
      s.f.emplace(Nested<Future<Val, Err>>(&w, &s));
      break;
    case kRunFuture:
      St(s.started, 1);
      St(s.at, site.under);
      s.f.emplace(yaclib::Run<Err>(*site.exe, std::move(functor)).On(nullptr));
      break;
    case kVoidContract: {
      auto [f, p] = yaclib::MakeContract<void, Err>();
      s.fv.emplace(std::move(f));
      s.pv.emplace(std::move(p));
    } break;
    case kSharedContract: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      s.sh.emplace(std::move(f));
      s.sp.emplace(std::move(p));
    } break;
    case kCoShared:
      St(s.started, 1);
      s.sh.emplace(Nested<SharedFuture<Val, Err>>(&w, &s));
      break;
    case kCoTask:
      s.t.emplace(Nested<Task<Val, Err>>(&w, &s));
      break;
    case kMakeTask:
      w.Done(s);
      s.t.emplace(yaclib::MakeTask<Val, Err>(ResOf<Val>(s.out)));
      break;
    case kSchedule:
      St(s.at, site.under);
      s.t.emplace(yaclib::Schedule<Err>(*site.exe, std::move(functor)));
      break;
    case kLazyContract:
      St(s.at, site.under);
      s.t.emplace(yaclib::LazyContract<Val, Err>(*site.exe, [&w, &s, tok = Tok{}](Promise<Val, Err> p) {
        std::ignore = tok.Alive();
        if (s.how % 2 == 0) {
          w.Done(s);
          Fulfil<Val>(std::move(p), s.out, s.how % 4 == 0);
          return;
        }
        auto& other = w.sites[s.how % w.sites.size()];
        St(s.at, other.under);
        yaclib::Submit(*other.exe, [&w, &s, p = std::move(p)]() mutable {
          w.Done(s);
          Fulfil<Val>(std::move(p), s.out, s.how % 4 == 1);
        });
      }));
      break;
    default:
      St(s.at, site.under);
      s.t.emplace(yaclib::MakeTask<void, Err>(std::in_place).Then(*site.exe, std::move(functor)));
      break;
  }
}

void FulfilSrc(World& w, Src& s) {
  w.Done(s);
  if (s.p) {
    Fulfil<Val>(std::move(*s.p), s.out, s.how % 2 == 0);
  } else if (s.pv) {
    Fulfil<void>(std::move(*s.pv), s.out, s.how % 2 == 0);
  } else {
    Fulfil<Val>(std::move(*s.sp), s.out, s.how % 2 == 0);
  }
}

template <typename Ret>
Ret Body(World* w, Co* co) {
  Tok tok;
  St(co->started, 1);
  St(co->at, -1);
  int placed = co->start_site;
  if (placed >= 0) {
    MC_CHECK(CurExe() == w->sites[placed].id, "ToFuture(e): the coroutine starts on executor %d instead of %d", CurExe(), w->sites[placed].id);
  }
  int index = 0;
  for (auto& st : co->plan) {
    std::string name = kStepName[st.kind];
    if (st.kind >= sOne && st.kind <= sRangeShared) {
      name += std::string{" "} + kFam[st.fam];
    }
    const char* who = name.c_str();
    IExecutor* own = &co_await yaclib::CurrentExecutor();
    if (placed >= 0) {
      MC_CHECK(own == w->sites[placed].exe, "CurrentExecutor is not the executor the coroutine was sent to");
      MC_CHECK(CurExe() == w->sites[placed].id, "CurrentExecutor moved the coroutine");
    }
    auto& site = w->sites[st.site];
    auto src = [&](std::size_t i) -> Src& {
      return w->srcs[st.srcs[i]];
    };
    auto resumed = [&] {
      std::ignore = tok.Alive();
      MC_CHECK(Inc(co->resumed[index]) == 1, "%s: resumed twice", who);
      St(co->at, -1);
    };
    // where the coroutine has to be after the step
    const auto where = [&](bool happened_on_site) {
      if (happened_on_site) {
        placed = st.site;
        MC_CHECK(CurExe() == site.id, "%s: resumed on executor %d instead of %d", who, CurExe(), site.id);
      } else if (st.fam == 3) {  // sticky: the own executor, or still where it was
        if (placed >= 0) {
          MC_CHECK(CurExe() == w->sites[placed].id, "%s: resumed on executor %d instead of its own %d", who, CurExe(), w->sites[placed].id);
        }
      } else {
        placed = -1;
      }
    };
    auto take = [&](Src& s, Future<Val, Err>& f) {
      MC_CHECK(f.Valid(), "%s: the future is not valid after the await", who);
      MC_READY(f.Ready(), "%s: the future is not ready after the await", who);
      if (st.after % 4 == 0) {
        const auto* got = std::as_const(f).Get();
        MC_CHECK(got != nullptr, "%s: Get() const& of an awaited future returns nothing", who);
        w->Saw(s, OutOf13(*got), who);
      }
      if (st.after % 4 != 3) {
        w->Saw(s, OutOf13(std::move(f).Touch()), who);
      } else {
        w->Happened(s, who);
      }
    };
    auto take_void = [&](Src& s, Future<void, Err>& f) {
      MC_CHECK(f.Valid(), "%s: the future is not valid after the await", who);
      MC_READY(f.Ready(), "%s: the future is not ready after the await", who);
      w->Saw(s, OutOf(std::move(f).Touch()), who);
    };
    auto look = [&](Src& s, const SharedFuture<Val, Err>& f) {
      MC_CHECK(f.Valid(), "%s: the shared future is not valid after the await", who);
      MC_READY(f.Ready(), "%s: the shared future is not ready after the await", who);
      w->Saw(s, OutOf13(f.Touch()), who);
    };
// one await of any family: name the executor that may refuse, await, note the resumption
#define AWAIT(...)                                    \
  if (st.fam == 2) {                                  \
    St(co->at, site.under);                           \
    co_await yaclib::AwaitOn(*site.exe, __VA_ARGS__); \
  } else if (st.fam == 3) {                           \
    St(co->at, w->UnderOf(own));                      \
    co_await yaclib::AwaitSticky(__VA_ARGS__);        \
  } else if (st.fam == 1) {                           \
    co_await yaclib::AwaitInline(__VA_ARGS__);        \
  } else {                                            \
    co_await yaclib::Await(__VA_ARGS__);              \
  }                                                   \
  resumed();                                          \
  where(st.fam == 2);
#define TAKE(expr)                            \
  if (st.guarded) {                           \
    Out got;                                  \
    try {                                     \
      Val v = co_await expr;                  \
      got = {kVal, v.Get()};                  \
    } catch (...) {                           \
      got = OutOfCurrent();                   \
    }                                         \
    resumed();                                \
    w->Saw(src(0), got, who);                 \
  } else {                                    \
    St(co->escaping, st.srcs[0]);             \
    Val v = co_await expr;                    \
    St(co->escaping, -1);                     \
    resumed();                                \
    w->Saw(src(0), {kVal, v.Get()}, who);     \
  }                                           \
  placed = -1;
    switch (st.kind) {
      case sOn: {
        St(co->at, site.under);
        co_await yaclib::On(*site.exe);
        resumed();
        where(true);
      } break;
      case sYield: {
        St(co->at, w->UnderOf(own));
        co_await yaclib::kYield;
        resumed();
        placed = w->SiteOf(own);
        if (placed >= 0) {
          MC_CHECK(CurExe() == w->sites[placed].id, "%s: resumed on executor %d instead of its own %d", who, CurExe(), w->sites[placed].id);
        }
      } break;
      case sYieldExe: {
        St(co->at, w->UnderOf(own));
        auto& e = co_await yaclib::Yield();
        resumed();
        MC_CHECK(&e == own, "Yield() returned another executor");
        placed = w->SiteOf(own);
        if (placed >= 0) {
          MC_CHECK(CurExe() == w->sites[placed].id, "%s: resumed on executor %d instead of its own %d", who, CurExe(), w->sites[placed].id);
        }
      } break;
      case sTake: {
        auto f = std::move(*src(0).f);
        TAKE(std::move(f))
        MC_CHECK(!f.Valid(), "co_await of a future did not consume it");
      } break;
      case sTakeShared: {
        if (st.form) {
          TAKE(*src(0).sh)
        } else {
          const auto f = *src(0).sh;
          TAKE(f)
          look(src(0), f);
        }
      } break;
      case sTakeTask: {
        auto t = std::move(*src(0).t);
        St(src(0).started, 1);
        TAKE(std::move(t))
        MC_CHECK(!t.Valid(), "co_await of a task did not consume it");
      } break;
      case sAwaitTask: {
        auto t = std::move(*src(0).t);
        St(src(0).started, 1);
        co_await yaclib::Await(t);
        resumed();
        placed = -1;
        MC_CHECK(t.Valid(), "the task is not valid after Await");
        MC_READY(t.Ready(), "the task is not ready after Await");
        if (st.after % 4 < 2) {
          w->Saw(src(0), OutOf13(std::as_const(t).Touch()), who);
        }
        if (st.after % 4 != 1) {
          w->Saw(src(0), OutOf13(std::move(t).Touch()), who);
        }
      } break;
      case sOne: {
        if (src(0).kind == kVoidContract) {
          auto f = std::move(*src(0).fv);
          AWAIT(f)
          take_void(src(0), f);
        } else {
          auto f = std::move(*src(0).f);
          AWAIT(f)
          take(src(0), f);
        }
      } break;
      case sOneShared: {
        auto f = *src(0).sh;
        AWAIT(f)
        look(src(0), f);
      } break;
      case sMany: {
        if (st.combo == 0) {
          auto a = std::move(*src(0).f);
          auto b = std::move(*src(1).f);
          AWAIT(a, b)
          take(src(0), a);
          take(src(1), b);
        } else if (st.combo == 1) {
          auto a = std::move(*src(0).f);
          auto b = *src(1).sh;
          AWAIT(a, b)
          take(src(0), a);
          look(src(1), b);
        } else if (st.combo == 2) {
          auto a = *src(0).sh;
          auto b = *src(1).sh;
          AWAIT(a, b)
          look(src(0), a);
          look(src(1), b);
        } else {
          auto a = std::move(*src(0).f);
          auto b = *src(1).sh;
          auto c = std::move(*src(2).fv);
          auto d = std::move(*src(3).f);
          AWAIT(a, b, c, d)
          take(src(0), a);
          look(src(1), b);
          take_void(src(2), c);
          take(src(3), d);
        }
      } break;
      case sRange: {
        std::vector<Future<Val, Err>> fs;
        for (std::size_t i = 0; i < st.srcs.size(); ++i) {
          fs.push_back(std::move(*src(i).f));
        }
        if (st.form) {
          AWAIT(fs.begin(), fs.size())
        } else {
          AWAIT(fs.begin(), fs.end())
        }
        for (std::size_t i = 0; i < st.srcs.size(); ++i) {
          take(src(i), fs[i]);
        }
      } break;
      default: {
        std::vector<SharedFuture<Val, Err>> fs;
        for (std::size_t i = 0; i < st.srcs.size(); ++i) {
          fs.push_back(*src(i).sh);
        }
        if (st.form) {
          AWAIT(fs.begin(), fs.size())
        } else {
          AWAIT(fs.begin(), fs.end())
        }
        for (std::size_t i = 0; i < st.srcs.size(); ++i) {
          look(src(i), fs[i]);
        }
      } break;
    }
#undef AWAIT
#undef TAKE
    if (st.kind == sOn || st.fam == 2 || st.fam == 3 || st.kind == sYield || st.kind == sYieldExe) {
      IExecutor* now = &co_await yaclib::CurrentExecutor();
      if (placed >= 0) {
        MC_CHECK(now == w->sites[placed].exe, "%s: CurrentExecutor is not the one the coroutine runs on", who);
      } else if (st.kind != sOn && st.fam == 3 && st.kind >= sOne) {
        MC_CHECK(now == own, "%s changed the own executor of the coroutine", who);
      }
    }
    ++index;
  }
  std::ignore = tok.Alive();
  MC_CHECK(Inc(co->finished) == 1, "a coroutine finished twice");
  switch (co->ret) {
    case 0:
      co_return Val{co->out.v};
    case 1:
      co_return R{std::in_place, co->out.v};
    case 2:
      throw Ex{co->out.v};
    case 3:
      co_return std::make_exception_ptr(Ex{co->out.v});
    case 4:
      co_return Err{co->out.v};
    case 5:
      co_return ResOf<Val>(co->out);
    default:
      co_return yaclib::StopTag{};
  }
}

void Setup(World& w, std::string& d) {
  const int lim = static_cast<int>(P(6)) - 3;  // most programs: nobody refuses
  for (int i = 0; i < 3; ++i) {
    const int accept = i == lim ? static_cast<int>(P(7)) : 1 << 30;
    w.exes.emplace_back(i + 1, i, accept);
    if (i == lim) {
      d += "executor " + std::to_string(i + 1) + " accepts " + std::to_string(accept) + "; ";
      mc::Label("executor refuses");
    }
  }
  for (int i = 0; i < 3; ++i) {
    w.sites.push_back({&w.exes[i], i + 1, i});
  }
  if (P(3) == 2) {
    const int u = 1 + static_cast<int>(P(2));
    w.strands.push_back(yaclib::MakeStrand(&w.exes[u]));
    w.sites.push_back({w.strands.back().Get(), u + 1, u});
    mc::Label("strand");
  }
}

int NewSrc(World& w, int kind) {
  auto& s = w.srcs.emplace_back();
  const int n = static_cast<int>(w.srcs.size());
  s.kind = kind;
  s.out = GenOut(n * 10);
  s.site = static_cast<int>(P(static_cast<mc::u32>(w.sites.size())));
  s.how = P(60);
  return n - 1;
}
int NewUnique(World& w) {
  return NewSrc(w, static_cast<int>(P(kRunFuture + 1)));
}
int NewTask(World& w) {
  return NewSrc(w, kCoTask + static_cast<int>(P(kSrcKinds - kCoTask)));
}
int SomeShared(World& w, std::vector<int>& pool) {
  if (pool.empty() || P(3) == 0) {
    pool.push_back(NewSrc(w, P(2) != 0 ? kSharedContract : kCoShared));
    return pool.back();
  }
  return pool[P(static_cast<mc::u32>(pool.size()))];
}

void GenCo(World& w, Co& co, std::vector<int>& pool, std::string& d, int id) {
  const mc::u32 n = 1 + P(4);
  d += "co(";
  for (mc::u32 i = 0; i < n; ++i) {
    auto& st = co.plan.emplace_back();
    st.kind = P(sSteps);
    if (st.kind >= sOne && st.kind <= sRangeShared) {
      st.fam = P(4);
    }
    st.site = static_cast<int>(P(static_cast<mc::u32>(w.sites.size())));
    st.form = PB();
    st.guarded = P(4) != 3;
    st.after = P(4);
    switch (st.kind) {
      case sTake:
        st.srcs = {NewUnique(w)};
        break;
      case sTakeShared:
      case sOneShared:
        st.srcs = {SomeShared(w, pool)};
        break;
      case sTakeTask:
      case sAwaitTask:
        st.srcs = {NewTask(w)};
        break;
      case sOne:
        st.srcs = {P(6) == 5 ? NewSrc(w, kVoidContract) : NewUnique(w)};
        break;
      case sMany:
        st.combo = P(4);
        st.srcs.push_back(st.combo == 2 ? SomeShared(w, pool) : NewUnique(w));
        st.srcs.push_back(st.combo == 0 ? NewUnique(w) : SomeShared(w, pool));
        if (st.combo == 3) {
          st.srcs.push_back(NewSrc(w, kVoidContract));
          st.srcs.push_back(NewUnique(w));
        }
        break;
      case sRange:
      case sRangeShared:
        for (mc::u32 k = P(4); k != 0; --k) {
          st.srcs.push_back(st.kind == sRange ? NewUnique(w) : SomeShared(w, pool));
        }
        break;
      default:
        break;
    }
    d += kStepName[st.kind];
    if (st.kind >= sOne && st.kind <= sRangeShared) {
      d += std::string{" "} + kFam[st.fam];
      mc::Label(kFam[st.fam]);
    }
    if (!st.srcs.empty()) {
      d += "{";
      for (auto s : st.srcs) {
        d += std::string{kSrcName[w.srcs[s].kind]} + "#" + std::to_string(s) + "=" + Str(w.srcs[s].out) + " ";
        mc::Label(kSrcName[w.srcs[s].kind]);
      }
      d += "}";
    }
    d += "; ";
    mc::Label(kStepName[st.kind]);
  }
  co.payload = 1000 + id;
  co.ret = P(7);
  co.out = co.ret <= 1 ? Out{kVal, co.payload} : co.ret <= 3 ? Out{kExc, co.payload} : co.ret == 4 ? Out{kErr, co.payload} : kStop;
  if (co.ret == 5) {
    co.out = GenOut(co.payload);
  }
  d += "return " + Str(co.out) + ") ";
}

// what consumers of one coroutine keep alive until the end
template <typename Ret>
struct Slot {
  std::optional<Ret> ret;
  std::optional<Future<Val, Err>> f;
  std::optional<Future<void, Err>> chained;
};

template <typename Ret>
void Program() {
  Quiet quiet;
  std::string d;
  {
    World w;
    Setup(w, d);
    std::vector<int> pool;
    const int n = 1 + static_cast<int>(P(3));
    for (int i = 0; i < n; ++i) {
      GenCo(w, w.cos.emplace_back(), pool, d, i);
    }
    for (auto& s : w.srcs) {
      MakeSrc(w, s);
    }
    // who fulfils which promise: nobody waits for it / thread 0 / thread 1
    std::vector<Src*> plan[2];
    for (auto& s : w.srcs) {
      if (s.p || s.pv || s.sp) {
        const mc::u32 k = P(4);
        if (k == 0) {
          FulfilSrc(w, s);
        } else {
          plan[k % 2].push_back(&s);
        }
      }
    }
    const mc::u32 stop = P(12);  // an executor may also be stopped at some moment
    std::deque<Slot<Ret>> slots(n);
    std::vector<Thread> ts;
    std::vector<Thread> ts2;
    for (auto& p : plan) {
      if (!p.empty()) {
        ts.emplace_back([&w, &p] {
          for (auto* s : p) {
            FulfilSrc(w, *s);
          }
        });
      }
    }
    if (stop < 3) {
      d += "Stop " + std::to_string(stop + 1);
      mc::Label("executor stops");
      ts.emplace_back([&w, stop] {
        w.exes[stop].Stop();
      });
    }
    mc::Describe("%s", d.c_str());
    std::vector<mc::u32> how, use;
    for (int i = 0; i < n; ++i) {
      how.push_back(P(3));
      use.push_back(P(8));
    }
    auto note = [](Co& co, const R& r) {
      const int i = Inc(co.observed);
      MC_CHECK(i <= 3, "a result was delivered too often");
      const Out o = OutOf13(r);
      St(co.seen_kind[i - 1], o.kind);
      St(co.seen_v[i - 1], o.v);
    };
    for (int i = 0; i < n; ++i) {
      auto& co = w.cos[i];
      auto& slot = slots[i];
      auto go = [&w, &co, &slot, &note, u = use[i]] {
        slot.ret.emplace(Body<Ret>(&w, &co));
        if constexpr (std::is_same_v<Ret, Task<Val, Err>>) {
          MC_CHECK(Ld(co.started) == 0, "a coroutine Task started before anybody asked");
          switch (u) {
            case 0:
              note(co, std::move(*slot.ret).Get());
              break;
            case 1:
              slot.f.emplace(std::move(*slot.ret).ToFuture());
              note(co, std::move(*slot.f).Get());
              break;
            case 2:
              std::move(*slot.ret).Detach();
              break;
            case 3:
              slot.ret.reset();
              MC_CHECK(Ld(co.started) == 0, "a dropped coroutine Task was run");
              St(co.finished, 1);
              break;
            case 4:
              std::move(*slot.ret).Cancel();
              MC_CHECK(Ld(co.started) == 0, "a cancelled coroutine Task was run");
              St(co.finished, 1);
              break;
            case 5:
              slot.chained.emplace(std::move(*slot.ret)
                                     .ThenInline([&co, &note](R&& r) {
                                       note(co, r);
                                     })
                                     .ToFuture());
              std::ignore = std::move(*slot.chained).Get();
              break;
            default: {
              co.start_site = static_cast<int>(u % w.sites.size());
              auto& site = w.sites[co.start_site];
              St(co.at, site.under);
              slot.f.emplace(std::move(*slot.ret).ToFuture(*site.exe).On(nullptr));
              note(co, std::move(*slot.f).Get());
            } break;
          }
        } else if constexpr (std::is_same_v<Ret, Future<Val, Err>>) {
          switch (u) {
            case 0:
              slot.ret.reset();
              break;
            case 1:
              std::move(*slot.ret).Detach();
              break;
            case 2:
            case 3:
              slot.chained.emplace(std::move(*slot.ret).ThenInline([&co, &note](R&& r) {
                note(co, r);
              }));
              break;
            default:
              note(co, std::move(*slot.ret).Get());
              break;
          }
        } else {
          auto& f = *slot.ret;
          if (u & 1U) {
            auto copy = f;
            copy.SubscribeInline([&co, &note](const R& r) {
              note(co, r);
            });
          }
          if (u & 2U) {
            note(co, std::as_const(f).Get());
          }
          if (u & 4U) {
            note(co, std::move(f).Get());
          } else if (u % 2 == 0) {
            slot.ret.reset();
          }
        }
      };
      if (how[i] == 0) {
        go();
      } else {
        ts2.emplace_back(go);
      }
    }
    for (auto& t : ts) {
      t.join();
    }
    for (auto& t : ts2) {
      t.join();
    }
    mc::Quiesce();
    for (auto& e : w.exes) {
      std::ignore = e.Alive();  // a happens-before edge from its idle workers
    }
    // everything that could run has run
    int lost[3] = {0, 0, 0};
    for (auto& co : w.cos) {
      const int at = Ld(co.at);
      Out want = co.out;
      if (const int e = Ld(co.escaping); e >= 0) {
        auto& s = w.srcs[e];
        const bool done = Ld(s.done) != 0;
        MC_CHECK(done || (Ld(s.at) >= 0 && Ld(w.exes[Ld(s.at)].drops) > 0), "a coroutine never resumed from co_await of %s", kSrcName[s.kind]);
        MC_CHECK(!done || s.out.kind != kVal, "a coroutine never resumed from co_await of %s", kSrcName[s.kind]);
        want = AsEscaped(done ? s.out : kStop);
      } else if (Ld(co.finished) == 0) {
        MC_CHECK(at >= 0 && Ld(w.exes[at].drops) > 0, "a coroutine never resumed (executor %d)", at + 1);
        ++lost[at];
        want = kStop;
      }
      // an error co_returned stays an error, an escaped one is an exception
      for (int i = 0; i < Ld(co.observed); ++i) {
        const Out got{Ld(co.seen_kind[i]), Ld(co.seen_v[i])};
        MC_CHECK(got == want, "the result of a coroutine is %s instead of %s", Str(got).c_str(), Str(want).c_str());
      }
      if (at >= 0) {
        mc::Label("coroutine refused");
      }
    }
    for (auto& s : w.srcs) {
      if (Ld(s.started) != 0 && Ld(s.done) == 0) {
        const int at = Ld(s.at);
        MC_CHECK(at >= 0 && Ld(w.exes[at].drops) > 0, "an awaited %s never finished", kSrcName[s.kind]);
        ++lost[at];
      }
    }
    for (int i = 0; i < 3; ++i) {
      const int drops = Ld(w.exes[i].drops);
      if (w.strands.empty()) {
        MC_CHECK(drops == lost[i], "executor %d refused %d jobs, %d coroutines and jobs were completed with StopError", i + 1, drops, lost[i]);
      } else {
        MC_CHECK((drops > 0) == (lost[i] > 0) && drops <= lost[i], "executor %d refused %d jobs, %d coroutines and jobs were completed with StopError",
                 i + 1, drops, lost[i]);
      }
    }
    slots.clear();
    w.srcs.clear();
    w.strands.clear();
    mc::Quiesce();  // a cancelled task runs its steps
    for (auto& e : w.exes) {
      e.Finish();
    }
    MC_CHECK_TAG("+C03", Ld(g_toks) == 0, "%d coroutine frame(s) or functor(s) not destroyed at quiescence", Ld(g_toks));
    if (mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }
}

}  // namespace
