// C11: Wait returns only when ready; a timed-out wait leaves the futures intact
#include "coro.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>

#include <chrono>
#include <deque>
#include <functional>
#include <list>

namespace {
using namespace h;
using yaclib::Future;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using std::chrono::nanoseconds;

struct Item {
  Out expect;
  bool drop = false;
  Counter started{0};
  Counter fired{0};
  Side side;
  mc::u64 delay = 0;

  void See(const Out& o, const char* who) {
    MC_CHECK(Ld(started) == 1, "%s: a result before the promise was set", who);
    MC_CHECK(o == expect, "%s: observed %s, the promise was set to %s", who, Str(o).c_str(), Str(expect).c_str());
    side.Expect(77, who);
  }
  void Fire(const Out& o, const char* who) {
    const int n = Inc(fired);
    MC_CHECK(n == 1, "%s: delivered %d times", who, n);
    See(o, who);
  }
};

enum WaitKind { wVar, wBeginEnd, wBeginCount, wList, wForVar, wForBeginEnd, wForBeginCount, wUntilVar, wUntilIt, wUntilList, wSubset, wForSubset, wKinds };
const char* const kWait[] = {"Wait(f...)",         "Wait(begin, end)",      "Wait(begin, count)", "Wait(list)",
                             "WaitFor(f...)",      "WaitFor(begin, end)",   "WaitFor(begin, count)", "WaitUntil(f...)",
                             "WaitUntil(begin, n)", "WaitUntil(list)", "Wait(subset)", "WaitFor(subset)"};

template <typename V>
struct Case {
  using F = Future<V, Err>;
  using R = Result<V, Err>;

  static F Through(F f) {
    Tok tok;
    co_await Await(f);
    co_return std::move(f).Touch();
  }

  static nanoseconds GenTimeout() {
    switch (P(6)) {
      case 0:
        return nanoseconds{0};
      case 1:
        return nanoseconds{-5};
      case 2:
        return nanoseconds{1};
      case 3:
        return nanoseconds{100};
      case 4:
        return nanoseconds{1'000'000};
      default:
        return nanoseconds{30};
    }
  }

  // Calls the variadic form with the first n futures
  template <typename Fn>
  static auto Spread(std::vector<F>& v, Fn&& fn) {
    switch (v.size()) {
      case 1:
        return fn(v[0]);
      case 2:
        return fn(v[0], v[1]);
      case 3:
        return fn(v[0], v[1], v[2]);
      default:
        return fn(v[0], v[1], v[2], v[3]);
    }
  }

  static void DoWait(std::vector<F>& v, std::deque<Item*>& items, mc::u32 kind, nanoseconds t, bool clock) {
    mc::Label(kWait[kind]);
    bool timed = true;
    bool ok = true;
    const std::size_t n = v.size();
    std::size_t from = 0, to = n;
    mc::u64 d0 = t.count() > 0 ? mc::Now() + static_cast<mc::u64>(t.count()) : mc::Now();
    auto until = std::chrono::steady_clock::now() + t;
    auto until2 = std::chrono::system_clock::now() + t;
    switch (kind) {
      case wVar:
        timed = false;
        Spread(v, [](auto&... f) {
          yaclib::Wait(f...);
        });
        break;
      case wBeginEnd:
        timed = false;
        yaclib::Wait(v.begin(), v.end());
        break;
      case wBeginCount:
        timed = false;
        yaclib::Wait(v.begin(), v.size());
        break;
      case wList: {
        timed = false;
        std::list<F> l;
        for (auto& f : v) {
          l.push_back(std::move(f));
        }
        yaclib::Wait(l.begin(), l.size());
        std::size_t i = 0;
        for (auto& f : l) {
          v[i++] = std::move(f);
        }
      } break;
      case wForVar:
        ok = Spread(v, [&](auto&... f) {
          return yaclib::WaitFor(t, f...);
        });
        break;
      case wForBeginEnd:
        ok = yaclib::WaitFor(t, v.begin(), v.end());
        break;
      case wForBeginCount:
        ok = yaclib::WaitFor(t, v.begin(), v.size());
        break;
      case wUntilVar:
        ok = Spread(v, [&](auto&... f) {
          return clock ? yaclib::WaitUntil(until, f...) : yaclib::WaitUntil(until2, f...);
        });
        break;
      case wUntilIt:
        ok = clock ? yaclib::WaitUntil(until, v.begin(), v.end()) : yaclib::WaitUntil(until2, v.begin(), v.size());
        break;
      case wUntilList: {
        std::list<F> l;
        for (auto& f : v) {
          l.push_back(std::move(f));
        }
        ok = yaclib::WaitUntil(until, l.begin(), l.size());
        std::size_t i = 0;
        for (auto& f : l) {
          v[i++] = std::move(f);
        }
      } break;
      case wSubset:
        timed = false;
        from = n - 1;
        yaclib::Wait(v.back());
        break;
      default:
        to = 1;
        ok = yaclib::WaitFor(t, v.front());
        break;
    }
    const mc::u64 now = mc::Now();
    if (!ok) {
      mc::Label("timed out");
      MC_CHECK(now >= d0, "%s returned false %llu ns before the deadline", kWait[kind], static_cast<unsigned long long>(d0 - now));
    }
    for (std::size_t i = from; i < to; ++i) {
      if (ok) {
        MC_READY(v[i].Ready(), "%s returned%s, future %d is not Ready", kWait[kind], timed ? " true" : "", static_cast<int>(i));
        const F& f = v[i];
        items[i]->See(OutOf(f.Touch()), "Touch after a wait");
      } else if (v[i].Ready()) {
        const F& f = v[i];
        items[i]->See(OutOf(f.Touch()), "Touch after a timed out wait");
      }
    }
  }

  // every way to take the result afterwards
  static void Consume(F& f, Item& item, Exe& e, mc::u32 kind) {
    switch (kind) {
      case 0: {
        auto r = std::move(f).Get();
        item.Fire(OutOf(r), "Get");
      } break;
      case 1:
        std::move(f).DetachInline([&item, tok = Tok{}](R&& r) {
          std::ignore = tok.Alive();
          item.Fire(OutOf(r), "DetachInline");
        });
        break;
      case 2:
        std::move(f).Detach(e, [&item, tok = Tok{}](R&& r) {
          std::ignore = tok.Alive();
          item.Fire(OutOf(r), "Detach(e)");
        });
        break;
      case 3: {
        auto g = std::move(f).ThenInline([&item, tok = Tok{}](R&& r) -> R {
          std::ignore = tok.Alive();
          item.Fire(OutOf(r), "ThenInline");
          return std::move(r);
        });
        yaclib::Wait(g);
        MC_READY(g.Ready(), "Wait returned, the future is not Ready");
        auto r = std::move(g).Touch();
        item.See(OutOf(r), "Touch of the next step");
      } break;
      case 4: {
        auto [g, p] = yaclib::MakeContract<V, Err>();
        yaclib::Connect(std::move(f), std::move(p));
        auto r = std::move(g).Get();
        item.Fire(OutOf(r), "Get after Connect");
      } break;
      case 5: {
        yaclib::Wait(f);
        auto r = std::move(f).Touch();
        item.Fire(OutOf(r), "Wait, Touch");
      } break;
      case 6: {
        auto g = Through(std::move(f));
        auto r = std::move(g).Get();
        item.Fire(OutOf(r), "co_await");
      } break;
      default:
        std::move(f).Detach();
        Inc(item.fired);
        break;
    }
  }

  static void Run() {
    Quiet quiet;
    std::deque<Item> items;
    Exe e{1, 1};
    const int groups = 1 + static_cast<int>(P(2));
    struct Group {
      std::vector<F> fs;
      std::deque<Item*> items;
    };
    std::deque<Group> gs;
    std::vector<Promise<V, Err>> ps;
    std::vector<Item*> order;
    std::string d;
    for (int g = 0; g < groups; ++g) {
      auto& group = gs.emplace_back();
      const int n = 1 + static_cast<int>(P(4));
      d += "[";
      for (int i = 0; i < n; ++i) {
        auto& item = items.emplace_back();
        item.expect = Norm<V>(GenOut(10 + static_cast<int>(items.size())));
        item.drop = PB();
        item.delay = P(3) == 0 ? 0 : P(3) * 50;
        d += Str(item.expect) + " ";
        auto [f, p] = yaclib::MakeContract<V, Err>();
        switch (P(6)) {
          case 1:
            f = std::move(f).ThenInline([tok = Tok{}](R&& r) -> R {
              return std::move(r);
            });
            break;
          case 2:
            f = std::move(f).Then(e, [tok = Tok{}](R&& r) -> R {
              return std::move(r);
            }).On(nullptr);
            break;
          case 3:
            f = Through(std::move(f));
            break;
          case 4:
            f = yaclib::MakeFuture<void, Err>().ThenInline([f = std::move(f), tok = Tok{}]() mutable {
              return std::move(f);
            });
            break;
          default:
            break;
        }
        group.fs.push_back(std::move(f));
        group.items.push_back(&item);
        ps.push_back(std::move(p));
        order.push_back(&item);
      }
      d += "]";
    }
    std::vector<Thread> ts;
    // producers
    std::vector<std::vector<int>> plan(3);
    for (int k = 0; k < static_cast<int>(ps.size()); ++k) {
      plan[P(3)].push_back(k);
    }
    auto set = [&](int k) {
      auto& item = *order[k];
      if (item.delay != 0) {
        mc::SleepUntil(mc::Now() + item.delay);
      }
      item.side.Write(77);
      St(item.started, 1);
      Fulfil<V>(std::move(ps[k]), item.expect, item.drop);
      auto rest = std::move(ps[k]);
    };
    for (int k : plan[0]) {
      order[k]->delay = 0;
    }
    if (PB()) {
      for (int k : plan[0]) {
        set(k);
      }
    } else {
      plan[1].insert(plan[1].end(), plan[0].begin(), plan[0].end());
    }
    for (int t = 1; t < 3; ++t) {
      if (!plan[t].empty()) {
        ts.emplace_back([&set, list = plan[t]] {
          for (int k : list) {
            set(k);
          }
        });
      }
    }
    // waiters: one thread per group
    bool waited = false;
    for (auto& group : gs) {
      struct Step {
        mc::u32 kind;
        nanoseconds t;
        bool clock;
      };
      std::vector<Step> steps;
      const int n = 1 + static_cast<int>(P(3));
      for (int i = 0; i < n; ++i) {
        steps.push_back({P(wKinds), GenTimeout(), PB()});
        d += std::string{" "} + kWait[steps.back().kind];
        waited = true;
      }
      d += ";";
      std::vector<mc::u32> fin;
      for (std::size_t i = 0; i < group.fs.size(); ++i) {
        fin.push_back(P(8));
      }
      const bool reuse_frame = PB();
      ts.emplace_back([&group, &e, steps, fin, reuse_frame] {
        for (auto& s : steps) {
          DoWait(group.fs, group.items, s.kind, s.t, s.clock);
          if (reuse_frame) {
            Scribble();
          }
        }
        for (std::size_t i = 0; i < group.fs.size(); ++i) {
          Consume(group.fs[i], *group.items[i], e, fin[i]);
        }
      });
    }
    mc::Describe("%s", d.c_str());
    for (auto& t : ts) {
      t.join();
    }
    e.Finish();
    for (auto& item : items) {
      MC_CHECK(Ld(item.fired) == 1, "a result was delivered %d times after the waits", Ld(item.fired));
    }
    if (waited && mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }

  // overwrites the stack area a finished wait has used, then lets the others run
  static __attribute__((noinline)) void Scribble() {
    volatile std::uint32_t area[256];
    for (auto& x : area) {
      x = 0xABABABAB;
    }
    Point();
    Point();
    for (auto& x : area) {
      MC_CHECK(x == 0xABABABAB, "somebody wrote to the stack of a waiter that has returned");
    }
  }
};

// Wait over SharedFutures and mixtures
template <typename V>
struct Shared {
  using SF = SharedFuture<V, Err>;
  using F = Future<V, Err>;

  static void Run() {
    Quiet quiet;
    std::deque<Item> items;
    Exe e{1, 1};
    const int n = 2 + static_cast<int>(P(3));
    std::vector<SF> sfs;
    std::vector<F> fs;
    std::vector<std::function<void()>> setters;
    for (int i = 0; i < n; ++i) {
      auto& item = items.emplace_back();
      item.expect = Norm<V>(GenOut(10 + i));
      item.drop = PB();
      if (i >= 2 && PB()) {
        auto [f, p] = yaclib::MakeContract<V, Err>();
        fs.push_back(std::move(f));
        items.back().delay = 1000 + fs.size() - 1;
        setters.push_back(Setter(item, std::move(p)));
      } else {
        auto [f, p] = yaclib::MakeSharedContract<V, Err>();
        sfs.push_back(std::move(f));
        items.back().delay = sfs.size() - 1;
        setters.push_back(Setter(item, std::move(p)));
      }
    }
    std::vector<Thread> ts;
    std::vector<std::vector<int>> plan(3);
    for (int k = 0; k < n; ++k) {
      plan[P(3)].push_back(k);
    }
    if (PB()) {
      for (int k : plan[0]) {
        setters[k]();
      }
    } else {
      plan[1].insert(plan[1].begin(), plan[0].begin(), plan[0].end());
    }
    for (int t = 1; t < 3; ++t) {
      if (!plan[t].empty()) {
        ts.emplace_back([&setters, list = plan[t]] {
          for (int k : list) {
            setters[k]();
          }
        });
      }
    }
    const int waiters = 1 + static_cast<int>(P(2));
    auto check = [&items](const SF& sf, std::size_t i) {
      MC_READY(sf.Ready(), "Wait returned, a shared future is not Ready");
      for (auto& item : items) {
        if (item.delay == i) {
          item.See(OutOf(sf.Touch()), "Touch after Wait");
        }
      }
    };
    std::string d;
    for (int w = 0; w < waiters; ++w) {
      const mc::u32 kind = P(6);
      const bool own = w == 0;  // unique futures belong to one thread
      d += "waiter " + std::to_string(kind) + " ";
      ts.emplace_back([&, kind, own, copies = sfs]() mutable {
        switch (kind) {
          case 0:
            yaclib::Wait(copies.begin(), copies.end());
            break;
          case 1:
            yaclib::Wait(copies.begin(), copies.size());
            break;
          case 2: {
            const auto& a = copies[0];
            const auto& b = copies[1];
            yaclib::Wait(a, b);
            check(copies[0], 0);
            check(copies[1], 1);
            for (auto& c : copies) {
              yaclib::Wait(c);
            }
          } break;
          case 3: {
            // the same shared state several times
            auto x = copies[0];
            yaclib::Wait(copies[0], x, copies[1]);
            check(x, 0);
            yaclib::Wait(copies.begin(), copies.end());
          } break;
          case 4:
            if (own && !fs.empty()) {
              if (fs.size() > 1) {
                yaclib::Wait(fs[0], copies[0], fs[1], copies[1]);
              } else {
                yaclib::Wait(copies[0], fs[0], copies[1]);
              }
              check(copies[0], 0);
              check(copies[1], 1);
              for (auto& f : fs) {
                MC_READY(f.Ready(), "Wait of a mixture returned, a future is not Ready");
              }
            }
            yaclib::Wait(copies.begin(), copies.end());
            break;
          default:
            if (own && !fs.empty()) {
              yaclib::Wait(fs[0], copies[0]);
              MC_READY(fs[0].Ready(), "Wait of a mixture returned, a future is not Ready");
              check(copies[0], 0);
            }
            yaclib::Wait(copies.begin(), copies.end());
            break;
        }
        for (std::size_t i = 0; i < copies.size(); ++i) {
          check(copies[i], i);
        }
        if (own) {
          for (std::size_t i = 0; i < fs.size(); ++i) {
            for (auto& item : items) {
              if (item.delay == 1000 + i) {
                item.Fire(OutOf(std::move(fs[i]).Get()), "Get");
              }
            }
          }
          for (std::size_t i = 0; i < copies.size(); ++i) {
            for (auto& item : items) {
              if (item.delay == i) {
                item.Fire(OutOf(std::move(copies[i]).Get()), "Get");
              }
            }
          }
        }
      });
    }
    mc::Describe("%d inputs, %d unique, %s", n, static_cast<int>(fs.size()), d.c_str());
    for (auto& t : ts) {
      t.join();
    }
    sfs.clear();
    setters.clear();
    e.Finish();
    if (mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }

  template <typename Pr>
  static std::function<void()> Setter(Item& item, Pr p) {
    auto shared = std::make_shared<Pr>(std::move(p));
    return [&item, shared] {
      item.side.Write(77);
      St(item.started, 1);
      Fulfil<V>(std::move(*shared), item.expect, item.drop);
      auto rest = std::move(*shared);
    };
  }
};

}  // namespace

MC_SCENARIO(c11_wait_val, "C11", 4) {
  Case<Val>::Run();
}
MC_SCENARIO(c11_wait_void, "C11", 1) {
  Case<void>::Run();
}
MC_SCENARIO(c11_wait_shared, "C11", 2) {
  Shared<Val>::Run();
}
