// C16: WaitGroup / OneShotEvent release every waiter exactly when the count hits zero
#include "coro.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/make.hpp>

#include <chrono>
#include <deque>
#include <functional>

namespace {
using namespace h;
using std::chrono::nanoseconds;
using yaclib::Future;
using yaclib::OneShotEvent;
using yaclib::Promise;
using yaclib::Result;
using yaclib::WaitGroup;

nanoseconds GenTimeout() {
  static const int kT[] = {0, -3, 1, 40, 200, 1'000'000};
  return nanoseconds{kT[P(6)]};
}

// One unit of the count: has to begin its Done before anybody may be released
struct Unit {
  Counter begun{0};
  Side side;
};

struct Waiter {
  Counter released{0};
  int want_exe = -1;
  bool may_give_up = false;  // a timed wait
};

struct World {
  std::deque<Unit> units;
  std::deque<Waiter> waiters;
  Counter begun{0};

  void Begin(Unit& u) {
    u.side.Write(9);
    Inc(u.begun);
    Inc(begun);
  }
  void Released(const char* who) {
    const int b = Ld(begun);
    const int n = static_cast<int>(units.size());
    MC_CHECK(b == n, "%s: released when only %d of %d Add were matched by a Done", who, b, n);
    for (auto& u : units) {
      u.side.Expect(9, who);
    }
  }
};

enum WKind { kWait, kWaitFor, kWaitUntil, kCoAwait, kCoInline, kCoSticky, kCoOn, kCoTwice, kWKinds };
const char* const kWName[] = {"Wait", "WaitFor", "WaitUntil", "co_await", "AwaitInline", "AwaitSticky", "AwaitOn", "AwaitOn+co_await"};

Future<void, Err> Co(World* w, Waiter* me, WaitGroup<>* wg, int kind, yaclib::IExecutor* own, yaclib::IExecutor* other) {
  Tok tok;
  if (own != nullptr) {
    co_await On(*own);
  }
  switch (kind) {
    case kCoAwait:
      co_await *wg;
      break;
    case kCoInline:
      co_await wg->AwaitInline();
      break;
    case kCoSticky:
      co_await wg->AwaitSticky();
      break;
    case kCoTwice:
      co_await wg->AwaitOn(*other);
      w->Released("first await");
      co_await *wg;
      break;
    default:
      co_await wg->AwaitOn(*other);
      break;
  }
  std::ignore = tok.Alive();
  const int exe = CurExe();
  MC_CHECK(Inc(me->released) == 1, "%s: resumed twice", kWName[kind]);
  if (me->want_exe >= 0) {
    MC_CHECK_TAG("+C05,C13", exe == me->want_exe, "%s: resumed on executor %d instead of %d", kWName[kind], exe, me->want_exe);
  }
  w->Released(kWName[kind]);
  co_return {};
}

void BlockingWait(World& w, Waiter& me, WaitGroup<>& wg, mc::u32 kind, nanoseconds t) {
  const mc::u64 d = mc::Now() + (t.count() > 0 ? static_cast<mc::u64>(t.count()) : 0);
  if (kind == kWait) {
    wg.Wait();
  } else {
    const bool ok = kind == kWaitFor ? wg.WaitFor(t) : wg.WaitUntil(std::chrono::steady_clock::now() + t);
    if (!ok) {
      mc::Label("timed out");
      MC_CHECK(mc::Now() >= d, "%s returned false before the deadline", kWName[kind]);
      Inc(me.released);
      return;
    }
  }
  Inc(me.released);
  w.Released(kWName[kind]);
}

struct Fut {
  Future<Val, Err> f;  // attached: stays with the owner
  Promise<Val, Err> p;
  Out expect;
  Unit* unit = nullptr;
  bool drop = false;
  bool early = false;
  bool attached = false;
  Counter started{0};
};

void Complete(World& w, Fut& x) {
  Inc(x.started);
  w.Begin(*x.unit);
  Fulfil<Val>(std::move(x.p), x.expect, x.drop);
  auto rest = std::move(x.p);
}

void CheckAttached(Fut& x, bool must) {
  if (x.f.Ready()) {
    MC_CHECK(Ld(x.started) == 1, "an attached future is Ready before it completed");
    const auto& f = x.f;
    const Out o = OutOf(f.Touch());
    MC_CHECK(o == x.expect, "an attached future carries %s instead of %s", Str(o).c_str(), Str(x.expect).c_str());
  } else {
    MC_CHECK(!must, "an attached future is not Ready after the wait group was released");
  }
}

void Insert(WaitGroup<>& wg, std::vector<Fut*> fs, mc::u32 form, bool attach) {
  // every form of Attach / Consume; all futures of one call are inserted the same way
  const std::size_t n = fs.size();
  for (auto* f : fs) {
    f->attached = attach;
  }
  static const char* const kForm[] = {"variadic", "variadic, no Add", "range", "range, no Add", "count"};
  mc::Label(attach ? "Attach" : "Consume");
  mc::Label(kForm[form]);
  auto& a = *fs[0];
  switch (form) {
    case 0:
    case 1: {
      const bool need = form == 0;
      if (!need) {
        wg.Add(n);
      }
      auto call = [&](auto&... x) {
        if (attach) {
          need ? wg.Attach<true>(x.f...) : wg.Attach<false>(x.f...);
        } else {
          need ? wg.Consume<true>(std::move(x.f)...) : wg.Consume<false>(std::move(x.f)...);
        }
      };
      if (n == 1) {
        call(a);
      } else if (n == 2) {
        call(a, *fs[1]);
      } else {
        call(a, *fs[1], *fs[2]);
      }
    } break;
    default: {
      std::vector<Future<Val, Err>> v;
      for (auto* f : fs) {
        v.push_back(std::move(f->f));
      }
      if (form == 3) {
        wg.Add(n);
      }
      if (attach) {
        form == 2   ? wg.Attach(v.begin(), v.end())
        : form == 3 ? wg.Attach<false>(v.begin(), v.end())
                    : wg.Attach(v.begin(), v.size());
        for (std::size_t i = 0; i < n; ++i) {
          fs[i]->f = std::move(v[i]);
        }
      } else {
        form == 2   ? wg.Consume(v.begin(), v.end())
        : form == 3 ? wg.Consume<false>(v.begin(), v.end())
                    : wg.Consume(v.begin(), v.size());
      }
    } break;
  }
  for (auto* f : fs) {
    if (attach) {
      MC_CHECK(f->f.Valid(), "an attached future is not valid");
      CheckAttached(*f, false);
    } else {
      MC_CHECK(!f->f.Valid(), "a consumed future is still valid");
    }
  }
}

void Round(std::optional<WaitGroup<>>& box, Exe& e1, Exe& e2, bool destroy_early) {
  World w;
  auto& wg = *box;
  std::deque<Fut> futs;
  std::string d;
  // holders: each owns one initial unit, inserts things while holding it, then calls Done
  struct Holder {
    Unit* unit;
    int adds = 0;  // extra plain units
    std::vector<Unit*> extra;
    std::vector<Fut*> fs;
    mc::u32 form = 0;
    bool attach = false;
    bool done_together = false;
  };
  std::deque<Holder> hs;
  const int holders = 1 + static_cast<int>(P(3));
  auto unit = [&]() -> Unit* {
    return &w.units.emplace_back();
  };
  for (int i = 0; i < holders; ++i) {
    auto& hd = hs.emplace_back();
    hd.unit = unit();
    hd.adds = static_cast<int>(P(3));
    for (int k = 0; k < hd.adds; ++k) {
      hd.extra.push_back(unit());
    }
    const int nf = static_cast<int>(P(4));
    hd.form = P(5);
    hd.attach = PB();
    hd.done_together = PB();
    for (int k = 0; k < nf; ++k) {
      auto& x = futs.emplace_back();
      x.unit = unit();
      x.expect = GenOut(10 + static_cast<int>(futs.size()));
      x.drop = PB();
      x.early = P(3) == 0;
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      x.f = std::move(f);
      x.p = std::move(p);
      hd.fs.push_back(&x);
    }
    d += "holder(adds " + std::to_string(hd.adds) + ", " + std::to_string(nf) + (hd.attach ? " attached" : " consumed") + ") ";
  }
  // the holders' own units
  switch (P(3)) {
    case 0:
      wg.Add(static_cast<std::size_t>(holders));
      break;
    case 1:
      mc::Label("Reset(count)");
      wg.Reset(static_cast<std::size_t>(holders));
      break;
    default:
      mc::Label("WaitGroup(count)");
      box.reset();
      box.emplace(static_cast<std::size_t>(holders));
      break;
  }
  MC_CHECK(wg.Count() == static_cast<std::size_t>(holders), "the count is %d after the start", static_cast<int>(wg.Count()));
  for (auto& x : futs) {
    if (x.early) {
      Complete(w, x);
    }
  }
  std::vector<Thread> ts;
  const bool cos = !destroy_early;
  const int waiters = destroy_early ? 1 : 1 + static_cast<int>(P(4));
  const int before = static_cast<int>(P(3));  // waiters that register before anybody can be done
  std::deque<Future<void, Err>> cfs;
  auto start_waiter = [&](int i) {
    auto& me = w.waiters.emplace_back();
    mc::u32 kind = cos ? P(kWKinds) : P(3);
    if (destroy_early && kind != kWait) {
      kind = kWait;
    }
    const nanoseconds t = GenTimeout();
    const bool own = PB();
    mc::Label(kWName[kind]);
    d += std::string{kWName[kind]} + " ";
    if (kind < kCoAwait) {
      ts.emplace_back([&w, &me, &wg, &box, kind, t, destroy_early] {
        BlockingWait(w, me, wg, kind, t);
        if (destroy_early) {
          box.reset();
        }
      });
    } else {
      me.want_exe = kind == kCoOn ? 2 : kind == kCoSticky && own ? 1 : -1;
      auto f = Co(&w, &me, &wg, static_cast<int>(kind), own ? &e1 : nullptr, &e2);
      cfs.push_back(std::move(f));
    }
    (void)i;
  };
  for (int i = 0; i < std::min(before, waiters); ++i) {
    start_waiter(i);
  }
  for (auto& hd : hs) {
    ts.emplace_back([&w, &wg, &hd] {
      if (hd.adds > 0) {
        wg.Add(static_cast<std::size_t>(hd.adds));
      }
      for (std::size_t i = 0; i + 1 < hd.extra.size(); ++i) {
        w.Begin(*hd.extra[i]);
        wg.Done();
      }
      if (!hd.fs.empty()) {
        Insert(wg, hd.fs, hd.form, hd.attach);
      }
      if (hd.adds > 0) {
        w.Begin(*hd.extra.back());
        if (hd.done_together) {
          w.Begin(*hd.unit);
          wg.Done(2);
          return;
        }
        wg.Done();
      }
      w.Begin(*hd.unit);
      wg.Done();
    });
  }
  const bool one_thread = PB();
  auto complete = [&w](Fut& x) {
    Complete(w, x);
  };
  std::vector<Fut*> late;
  for (auto& x : futs) {
    if (!x.early) {
      late.push_back(&x);
    }
  }
  if (one_thread) {
    if (!late.empty()) {
      ts.emplace_back([&complete, late] {
        for (auto* x : late) {
          complete(*x);
        }
      });
    }
  } else {
    for (auto* x : late) {
      ts.emplace_back([&complete, x] {
        complete(*x);
      });
    }
  }
  for (int i = std::min(before, waiters); i < waiters; ++i) {
    start_waiter(i);
  }
  mc::Describe("%s", d.c_str());
  for (auto& t : ts) {
    t.join();
  }
  if (!destroy_early) {
    MC_CHECK(wg.Count() == 0, "the count is %d after everything is done", static_cast<int>(wg.Count()));
    // after zero: everybody passes at once
    wg.Wait();
    MC_CHECK(wg.WaitFor(nanoseconds{0}), "WaitFor(0) returned false after the count reached zero");
    MC_CHECK(wg.WaitUntil(std::chrono::steady_clock::now() - nanoseconds{1}), "WaitUntil returned false after zero");
    auto& me = w.waiters.emplace_back();
    cfs.push_back(Co(&w, &me, &wg, kCoAwait, nullptr, &e2));
    MC_CHECK(Ld(me.released) == 1, "co_await after zero did not resume at once");
  }
  for (auto& x : futs) {
    if (x.attached) {
      CheckAttached(x, true);
      Out o;
      switch (P(3)) {
        case 0:
          o = OutOf(std::move(x.f).Get());
          break;
        case 1: {
          int n = 0;
          std::move(x.f).DetachInline([&](Result<Val, Err>&& r) {
            o = OutOf(r);
            ++n;
          });
          MC_CHECK(n == 1, "a continuation of an attached future ran %d times", n);
        } break;
        default:
          o = x.expect;
          break;
      }
      MC_CHECK(o == x.expect, "an attached future delivered %s instead of %s", Str(o).c_str(), Str(x.expect).c_str());
    }
  }
  for (auto& f : cfs) {
    auto r = std::move(f).Get();
    MC_CHECK_TAG("+C13", r, "a waiting coroutine failed");
  }
  for (auto& me : w.waiters) {
    MC_CHECK(Ld(me.released) == 1, "a waiter was released %d times", Ld(me.released));
  }
  if (w.units.size() >= 2 && mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
}

// ------------------------------------------------------------------------------------------------ OneShotEvent
struct EventWorld {
  Counter begun{0};  // Call / Set that have begun
  Counter ended{0};
  Counter set_begun{0};
  Counter set_ended{0};
  Side side;  // written before the first Call or Set of a round
  int round = 0;
};

Future<void, Err> EvCo(EventWorld* w, OneShotEvent* ev, int kind, int want, Counter* released, yaclib::IExecutor* own,
                       yaclib::IExecutor* other) {
  Tok tok;
  if (own != nullptr) {
    co_await On(*own);
  }
  const int ended = Ld(w->ended);
  const bool was_set = Ld(w->set_ended) != 0;
  switch (kind) {
    case kCoSticky:
      co_await ev->AwaitSticky();
      break;
    case kCoOn:
      co_await ev->AwaitOn(*other);
      break;
    case kCoInline:
      co_await ev->AwaitInline();
      break;
    default:
      co_await *ev;
      break;
  }
  std::ignore = tok.Alive();
  MC_CHECK(Inc(*released) == 1, "OneShotEvent: %s resumed twice", kWName[kind]);
  MC_CHECK(was_set || Ld(w->begun) > ended, "OneShotEvent: %s resumed before Call or Set", kWName[kind]);
  if (want >= 0) {
    MC_CHECK_TAG("+C05,C13", CurExe() == want, "OneShotEvent: %s resumed on executor %d instead of %d", kWName[kind], CurExe(), want);
  }
  w->side.Expect(w->round, "after Call or Set");
  co_return {};
}

void Event() {
  Quiet quiet;
  Exe e1{1, 1}, e2{2, 1};
  std::optional<OneShotEvent> box{std::in_place};
  auto& ev = *box;
  EventWorld w;
  const int rounds = 1 + static_cast<int>(P(2));
  for (int round = 0; round < rounds; ++round) {
    w.round = round + 1;
    std::deque<CJob> jobs;
    std::deque<Counter> released;
    std::deque<Future<void, Err>> cfs;
    std::vector<Thread> ts;
    std::vector<int> added;
    struct Try {
      CJob* job;
      bool ok = false;
    };
    std::deque<Try> tries;
    const int calls = static_cast<int>(P(3));
    const int waiters = 1 + static_cast<int>(P(4));
    const bool late_set = PB();
    std::string d = std::to_string(calls) + " Call, then Set; ";
    auto fire = [&] {
      w.side.Write(w.round);
      for (int i = 0; i < calls; ++i) {
        Inc(w.begun);
        ev.Call();
        Inc(w.ended);
      }
      Inc(w.begun);
      Inc(w.set_begun);
      ev.Set();
      Inc(w.set_ended);
      Inc(w.ended);
      MC_CHECK(ev.Ready(), "the event is not Ready after Set");
    };
    auto one = [&](int) {
      const mc::u32 kind = P(kWKinds + 2);
      const nanoseconds t = GenTimeout();
      const bool own = PB();
      if (kind >= kWKinds) {
        d += "TryAdd ";
        mc::Label("TryAdd");
        auto& job = jobs.emplace_back();
        auto& tr = tries.emplace_back();
        tr.job = &job;
        job.ctx = &w;
        job.on_call = [](CJob& j) {
          auto& w = *static_cast<EventWorld*>(j.ctx);
          MC_CHECK(Ld(w.begun) > j.id, "OneShotEvent: a job was called before Call or Set");
        };
        ts.emplace_back([&w, &ev, &tr, &job] {
          job.id = Ld(w.ended);
          tr.ok = ev.TryAdd(job);
          MC_CHECK(tr.ok || Ld(w.set_begun) != 0, "TryAdd refused before Set");
        });
        return;
      }
      d += std::string{kWName[kind]} + " ";
      mc::Label(kWName[kind]);
      auto& rel = released.emplace_back(0);
      if (kind < kCoAwait) {
        ts.emplace_back([&w, &ev, &rel, kind, t] {
          const int ended = Ld(w.ended);
          const bool was_set = Ld(w.set_ended) != 0;
          const mc::u64 dl = mc::Now() + (t.count() > 0 ? static_cast<mc::u64>(t.count()) : 0);
          bool ok = true;
          if (kind == kWait) {
            ev.Wait();
          } else if (kind == kWaitFor) {
            ok = ev.WaitFor(t);
          } else {
            ok = ev.WaitUntil(std::chrono::steady_clock::now() + t);
          }
          if (ok) {
            MC_CHECK(was_set || Ld(w.begun) > ended, "OneShotEvent: %s returned before Call or Set", kWName[kind]);
            w.side.Expect(w.round, "after Call or Set");
          } else {
            MC_CHECK(mc::Now() >= dl, "OneShotEvent: %s timed out before the deadline", kWName[kind]);
            MC_CHECK(!was_set, "OneShotEvent: %s timed out on a Ready event", kWName[kind]);
          }
          Inc(rel);
        });
      } else {
        const int k = kind == kCoTwice ? static_cast<int>(kCoOn) : static_cast<int>(kind);
        cfs.push_back(EvCo(&w, &ev, k, k == kCoOn ? 2 : k == kCoSticky && own ? 1 : -1, &rel, own ? &e1 : nullptr, &e2));
      }
    };
    if (!late_set) {
      ts.emplace_back(fire);
    }
    for (int i = 0; i < waiters; ++i) {
      one(i);
    }
    // nobody has to be missed by the Set
    if (late_set) {
      ts.emplace_back(fire);
    }
    if (P(4) == 3) {
      ts.emplace_back([&] {
        bool was = false;
        for (int i = 0; i < 4; ++i) {
          const bool r = ev.Ready();
          MC_CHECK(!was || r, "OneShotEvent: Ready() went back to false");
          MC_CHECK(!r || Ld(w.set_begun) != 0, "OneShotEvent: Ready() before Set");
          was = r;
        }
      });
    }
    mc::Describe("%s", d.c_str());
    for (auto& t : ts) {
      t.join();
    }
    for (auto& f : cfs) {
      auto r = std::move(f).Get();
      MC_CHECK_TAG("+C13", r, "a waiting coroutine failed");
    }
    for (auto& r : released) {
      MC_CHECK(Ld(r) == 1, "OneShotEvent: a waiter was released %d times", Ld(r));
    }
    for (auto& tr : tries) {
      MC_CHECK(tr.job->Done() == (tr.ok ? 1 : 0), "OneShotEvent: TryAdd returned %d, the job was finished %d times", tr.ok, tr.job->Done());
      MC_CHECK(Ld(tr.job->drops) == 0, "OneShotEvent: a job was dropped");
    }
    CJob late;
    MC_CHECK(!ev.TryAdd(late), "TryAdd succeeded after Set");
    ev.Wait();
    MC_CHECK(ev.WaitFor(nanoseconds{0}), "WaitFor(0) after Set returned false");
    ev.Reset();
    MC_CHECK(!ev.Ready(), "Ready() after Reset");
    St(w.begun, 0);
    St(w.ended, 0);
    St(w.set_begun, 0);
    St(w.set_ended, 0);
  }
  e1.Finish();
  e2.Finish();
  if (mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
}

}  // namespace

MC_SCENARIO(c16_wait_group, "C16", 4) {
  Quiet quiet;
  Exe e1{1, 1}, e2{2, 1};
  std::optional<WaitGroup<>> box{std::in_place};
  const bool destroy = P(4) == 3;
  if (destroy) {
    mc::Label("destroyed by its waiter");
  }
  const int rounds = destroy ? 1 : 1 + static_cast<int>(P(2));
  for (int i = 0; i < rounds; ++i) {
    if (i > 0) {
      mc::Label("Reset and used again");
      box->Reset();
    }
    Round(box, e1, e2, destroy);
  }
  e1.Finish();
  e2.Finish();
}
MC_SCENARIO(c16_event, "C16", 2) {
  Event();
}
