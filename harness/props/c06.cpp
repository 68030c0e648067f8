// C06: SharedFuture: every observer sees the one value once, never before it exists
#include "coro.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>

#include <deque>

namespace {
using namespace h;
using yaclib::Future;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureBase;
using yaclib::SharedPromise;

struct Ob {
  const char* name = "";
  Counter fired{0};
  bool once = true;  // has to fire exactly once
  int want_exe = -1;
  int exe = -1;
};

struct World {
  Side side;
  Counter started{0};
  Out expect;
  std::deque<Ob> obs;  // guarded by m
  yaclib_std::mutex m;

  Ob& New(const char* name, int want_exe = -1) {
    std::lock_guard lock{m};
    auto& o = obs.emplace_back();
    o.name = name;
    o.want_exe = want_exe;
    return o;
  }
  void See(const Out& o, const char* who) {
    if (Ld(started) == 0) {
      mc::Fail("", "%s: fired before the value was set", who);
    }
    if (!(o == expect)) {
      mc::Fail("", "%s: observed %s, the promise was set to %s", who, Str(o).c_str(), Str(expect).c_str());
    }
    side.Expect(41, who);
  }
  void Fire(Ob& ob, const Out& o) {
    int n = Inc(ob.fired);
    if (n != 1) {
      mc::Fail("", "%s: fired %d times", ob.name, n);
    }
    ob.exe = CurExe();
    See(o, ob.name);
  }
};

enum Op {
  oGetRef,
  oGetCopy,
  oPoll,
  oThenInline,
  oThenInlineByValue,
  oThenValue,
  oThenExe,
  oThenDropped,
  oSubscribeInline,
  oSubscribeExe,
  oShare,
  oShareExe,
  oConnectP,
  oConnectSP,
  oCoAwait,
  oCoAwaitThenYield,
  oCoAwaitInline,
  oCoAwaitOn,
  oCoAwaitSticky,
  oCoAwaitTwice,
  oWhenAll,
  oWhenAny,
  oJoin,
  oDrop,
  oReturned,
  oWaitTwo,
  oCount
};
const char* const kOpName[] = {"Get const&",      "Get of a copy", "poll Ready",       "ThenInline",    "ThenInline by value", "ThenInline value",
                               "Then(e)",         "Then(e) dropped", "SubscribeInline", "Subscribe(e)", "Share",   "Share(e)",
                               "Connect Promise", "Connect SharedPromise", "co_await", "co_await+Yield", "co_await AwaitInline",
                               "co_await AwaitOn", "co_await AwaitSticky", "co_await twice", "WhenAll", "WhenAny", "Join", "drop",
                               "returned from a callback", "Wait of two"};

template <typename V>
struct Case {
  using SF = SharedFuture<V, Err>;
  using R = Result<V, Err>;

  // coroutine observers (by-value parameters keep their copies)
  static Future<void, Err> Co(World* w, Ob* ob, SF sf, int kind, yaclib::IExecutor* own, yaclib::IExecutor* other) {
    Tok tok;
    if (own != nullptr) {
      co_await On(*own);
    }
    try {
      switch (kind) {
        case oCoAwait:
        case oCoAwaitThenYield:
          if constexpr (std::is_void_v<V>) {
            co_await sf;
            w->Fire(*ob, {kVal, 0});
          } else {
            auto v = co_await sf;
            w->Fire(*ob, {kVal, PayloadOf(v)});
          }
          break;
        case oCoAwaitInline:
          co_await AwaitInline(sf);
          MC_READY(sf.Ready(), "AwaitInline resumed, the future is not Ready");
          w->Fire(*ob, OutOf(std::as_const(sf).Touch()));
          break;
        case oCoAwaitOn:
          co_await AwaitOn(*other, sf);
          MC_READY(sf.Ready(), "AwaitOn resumed, the future is not Ready");
          w->Fire(*ob, OutOf(std::as_const(sf).Touch()));
          break;
        case oCoAwaitSticky:
          co_await AwaitSticky(sf);
          MC_READY(sf.Ready(), "AwaitSticky resumed, the future is not Ready");
          w->Fire(*ob, OutOf(std::as_const(sf).Touch()));
          break;
        default: {
          SF copy = sf;
          co_await Await(sf, copy);
          MC_READY(sf.Ready() && copy.Ready(), "Await resumed, the futures are not Ready");
          w->Fire(*ob, OutOf(std::as_const(copy).Touch()));
        } break;
      }
    } catch (...) {
      w->Fire(*ob, OutOfCurrent());
    }
    std::ignore = tok.Alive();
    if (kind == oCoAwaitThenYield) {
      co_await yaclib::kYield;
    }
    co_return {};
  }

  static SF Produce(Future<V, Err> f, bool await_first) {
    Tok tok;
    if (await_first) {
      co_await Await(f);
    }
    if constexpr (std::is_void_v<V>) {
      co_await std::move(f);
      co_return {};
    } else {
      auto v = co_await std::move(f);
      co_return std::move(v);
    }
  }

  // One observer on `sf`; blocking is allowed
  template <typename F>
  static void Observe(World& w, const F& sf, mc::u32 kind, Exe& e1, Exe& e2) {
    mc::Label(kOpName[kind]);
    switch (kind) {
      case oGetRef: {
        auto& ob = w.New(kOpName[kind]);
        const auto& r = sf.Get();
        MC_READY(sf.Ready(), "Get returned, the future is not Ready");
        w.Fire(ob, OutOf(r));
        w.See(OutOf(sf.Touch()), "Touch after Get");
      } break;
      case oGetCopy: {
        auto& ob = w.New(kOpName[kind]);
        auto copy = sf;
        auto r = std::move(copy).Get();
        w.Fire(ob, OutOf(r));
      } break;
      case oPoll: {
        bool was = false;
        for (int i = 0; i < 4; ++i) {
          bool ready = sf.Ready();
          MC_CHECK(!was || ready, "Ready() went back to false");
          if (ready) {
            was = true;
            w.See(OutOf(sf.Touch()), "Touch after Ready");
          }
          Point();
        }
      } break;
      case oThenInline: {
        auto& ob = w.New(kOpName[kind]);
        auto g = sf.ThenInline([&w, &ob, tok = Tok{}](const R& r) {
          std::ignore = tok.Alive();
          w.Fire(ob, OutOf(r));
        });
        std::ignore = std::move(g).Get();
      } break;
      case oThenInlineByValue: {
        auto& ob = w.New(kOpName[kind]);
        sf.ThenInline([&w, &ob, tok = Tok{}](R r) -> R {
            std::ignore = tok.Alive();
            w.Fire(ob, OutOf(r));
            R stolen = std::move(r);
            Point();
            return stolen;
          })
          .DetachInline([&w](R&& r) {
            w.See(OutOf(r), "second step");
          });
      } break;
      case oThenValue: {
        auto& ob = w.New(kOpName[kind]);
        ob.once = w.expect.kind == kVal;
        if constexpr (std::is_void_v<V>) {
          sf.ThenInline([&w, &ob] {
              w.Fire(ob, {kVal, 0});
            })
            .Detach();
        } else {
          sf.ThenInline([&w, &ob](V v) {
              w.Fire(ob, {kVal, PayloadOf(v)});
              V stolen = std::move(v);
            })
            .Detach();
        }
      } break;
      case oThenExe: {
        auto& ob = w.New(kOpName[kind], 2);
        auto g = sf.Then(e2, [&w, &ob, tok = Tok{}](const R& r) -> R {
          std::ignore = tok.Alive();
          w.Fire(ob, OutOf(r));
          return r;
        });
        auto r = std::move(g).Get();
        w.See(OutOf(r), "Get after Then(e)");
      } break;
      case oThenDropped: {
        auto& ob = w.New(kOpName[kind], 2);
        auto g = sf.Then(e2, [&w, &ob, tok = Tok{}](const R& r) {
          std::ignore = tok.Alive();
          w.Fire(ob, OutOf(r));
        });
        std::move(g).Detach();
      } break;
      case oSubscribeInline: {
        auto& ob = w.New(kOpName[kind]);
        sf.SubscribeInline([&w, &ob, tok = Tok{}](const R& r) {
          std::ignore = tok.Alive();
          w.Fire(ob, OutOf(r));
          Point();
        });
      } break;
      case oSubscribeExe: {
        auto& ob = w.New(kOpName[kind], 2);
        static_cast<const SharedFutureBase<V, Err>&>(sf).Subscribe(e2, [&w, &ob, tok = Tok{}](R r) {
          std::ignore = tok.Alive();
          w.Fire(ob, OutOf(r));
        });
      } break;
      case oShare: {
        auto& ob = w.New(kOpName[kind]);
        auto f = yaclib::Share(sf);
        auto r = std::move(f).Get();
        w.Fire(ob, OutOf(r));
      } break;
      case oShareExe: {
        auto& ob = w.New(kOpName[kind], 2);
        auto f = yaclib::Share(sf, e2);
        std::move(f).Detach([&w, &ob](R&& r) {
          w.Fire(ob, OutOf(r));
          R stolen = std::move(r);
        });
      } break;
      case oConnectP: {
        auto& ob = w.New(kOpName[kind]);
        auto [f, p] = yaclib::MakeContract<V, Err>();
        std::move(f).DetachInline([&w, &ob](R&& r) {
          w.Fire(ob, OutOf(r));
          R stolen = std::move(r);
        });
        yaclib::Connect(sf, std::move(p));
      } break;
      case oConnectSP: {
        auto& ob = w.New(kOpName[kind]);
        auto& ob2 = w.New(kOpName[kind]);
        auto [f, p] = yaclib::MakeSharedContract<V, Err>();
        yaclib::Connect(sf, std::move(p));
        f.SubscribeInline([&w, &ob](const R& r) {
          w.Fire(ob, OutOf(r));
        });
        auto r = std::move(f).Get();
        w.Fire(ob2, OutOf(r));
      } break;
      case oCoAwait:
      case oCoAwaitThenYield:
      case oCoAwaitInline:
      case oCoAwaitOn:
      case oCoAwaitSticky:
      case oCoAwaitTwice: {
        const bool own = PB();
        auto& ob = w.New(kOpName[kind], kind == oCoAwaitOn ? 2 : kind == oCoAwaitSticky && own ? 1 : -1);
        SF copy;
        if constexpr (std::is_same_v<F, SF>) {
          copy = sf;
        } else {
          auto tmp = sf;
          copy = std::move(tmp).On(nullptr);
        }
        auto f = Co(&w, &ob, std::move(copy), static_cast<int>(kind), own ? &e1 : nullptr, &e2);
        if (PB()) {
          auto r = std::move(f).Get();
          MC_CHECK_TAG("+C13", r, "observer coroutine failed");
        } else {
          std::move(f).Detach();
        }
      } break;
      case oWhenAll: {
        auto& ob = w.New(kOpName[kind]);
        std::vector<F> v{sf, sf};
        auto f = yaclib::WhenAll<yaclib::FailPolicy::None>(v.begin(), v.size());
        v.clear();
        auto r = std::move(f).Get();
        if constexpr (std::is_void_v<V>) {
          auto list = std::move(r).Ok();
          w.Fire(ob, OutOf(std::as_const(list[0])));
          w.See(OutOf(std::as_const(list[1])), "WhenAll");
        } else {
          auto list = std::move(r).Ok();
          w.Fire(ob, OutOf(std::as_const(list[0])));
          w.See(OutOf(std::as_const(list[1])), "WhenAll");
        }
      } break;
      case oWhenAny: {
        auto& ob = w.New(kOpName[kind]);
        auto f = yaclib::WhenAny(sf, sf);
        auto r = std::move(f).Get();
        w.Fire(ob, OutOf(r));
      } break;
      case oJoin: {
        auto& ob = w.New(kOpName[kind]);
        auto f = yaclib::Join<yaclib::FailPolicy::None>(sf, sf);
        std::ignore = std::move(f).Get();
        w.Fire(ob, OutOf(sf.Touch()));
      } break;
      case oDrop: {
        auto copy = sf;
        Point();
        std::move(copy).Detach();
      } break;
      case oReturned: {
        auto& ob = w.New(kOpName[kind]);
        auto f = yaclib::MakeFuture<void, Err>().ThenInline([sf] {
          return sf;
        });
        auto r = std::move(f).Get();
        w.Fire(ob, OutOf(r));
      } break;
      case oWaitTwo: {
        auto& ob = w.New(kOpName[kind]);
        auto copy = sf;
        yaclib::Wait(sf, copy);
        MC_READY(sf.Ready() && copy.Ready(), "Wait returned, the futures are not Ready");
        w.Fire(ob, OutOf(sf.Touch()));
        w.See(OutOf(std::as_const(copy).Touch()), "Touch after Wait");
      } break;
      default:
        break;
    }
  }

  static bool Blocks(mc::u32 k) {
    switch (k) {
      case oGetRef:
      case oGetCopy:
      case oThenInline:
      case oThenExe:
      case oShare:
      case oConnectSP:
      case oCoAwait:
      case oCoAwaitThenYield:
      case oCoAwaitInline:
      case oCoAwaitOn:
      case oCoAwaitSticky:
      case oCoAwaitTwice:
      case oWhenAll:
      case oWhenAny:
      case oJoin:
      case oReturned:
      case oWaitTwo:
        return true;
      default:
        return false;
    }
  }

  // Runs `threads` observer threads over copies of `sf`; the handle is consumed
  template <typename F>
  static void Observers(World& w, Exe& e1, Exe& e2, F sf, std::vector<Thread>& ts, bool keep_main) {
    const int n = 1 + static_cast<int>(P(3));
    for (int i = 0; i < n; ++i) {
      const int ops = static_cast<int>(P(3));
      mc::u32 k[2] = {P(oCount), P(oCount)};
      const mc::u32 fin = P(5);
      ts.emplace_back([&w, &e1, &e2, sf, ops, k0 = k[0], k1 = k[1], fin]() mutable {
        if (ops > 0) {
          Observe(w, sf, k0, e1, e2);
        }
        if (ops > 1) {
          Observe(w, sf, k1, e1, e2);
        }
        switch (fin) {
          case 0: {
            auto& ob = w.New("Get&&");
            auto r = std::move(sf).Get();
            w.Fire(ob, OutOf(r));
          } break;
          case 1:
            if (sf.Ready()) {
              auto r = std::move(sf).Touch();
              w.See(OutOf(r), "Touch&&");
            }
            break;
          case 2: {
            Point();
            auto gone = std::move(sf);
          } break;
          case 3:
            std::move(sf).Detach();
            break;
          default:
            break;
        }
        auto rest = std::move(sf);
      });
    }
    if (keep_main) {
      auto& ob = w.New("Get&& of main");
      auto r = std::move(sf).Get();
      w.Fire(ob, OutOf(r));
    } else {
      auto gone = std::move(sf);
    }
  }

  static void Finish(World& w, Exe& e1, Exe& e2, const char* src) {
    e1.Finish();
    e2.Finish();
    e1.Finish();
    int fired = 0;
    for (auto& o : w.obs) {
      int n = Ld(o.fired);
      fired += n;
      MC_CHECK(!o.once || n == 1, "%s (%s): fired %d times", o.name, src, n);
      MC_CHECK(o.once || n == 0, "%s (%s): value callback fired although the result is %s", o.name, src, Str(w.expect).c_str());
      if (o.want_exe >= 0 && n == 1) {
        MC_CHECK_TAG("+C05,C13", o.exe == o.want_exe, "%s ran on executor %d instead of %d", o.name, o.exe, o.want_exe);
      }
    }
    if (fired >= 2 && mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }

  static void Run() {
    Quiet quiet;
    World w;
    Exe e1{1, 1}, e2{2, 1};
    w.expect = Norm<V>(GenOut(100 + static_cast<int>(P(8))));
    const bool drop_promise = PB();
    const mc::u32 src = P(8);
    const mc::u32 pre = P(4);
    const bool keep_main = P(3) == 1;
    const mc::u32 early = P(3);
    static const char* const kSrc[] = {"contract", "contractOn", "promise+Split", "Split(Future)", "Connect(Future, SharedPromise)",
                                       "Connect(SharedFuture, SharedPromise)", "coroutine", "AsyncSharedContract"};
    mc::Describe("%s, set to %s", kSrc[src], Str(w.expect).c_str());
    mc::Label(kSrc[src]);
    std::vector<Thread> ts;
    auto fulfil = [&](auto p) {
      ts.emplace_back([&w, p = std::move(p), pre, drop_promise]() mutable {
        for (mc::u32 i = 0; i < pre; ++i) {
          Point();
        }
        w.side.Write(41);
        St(w.started, 1);
        Fulfil<V>(std::move(p), w.expect, drop_promise);
        auto rest = std::move(p);
      });
    };
    auto early_obs = [&](const auto& sf) {
      for (mc::u32 i = 0; i < early; ++i) {
        auto k = P(oCount);
        if (!Blocks(k)) {
          Observe(w, sf, k, e1, e2);
        }
      }
    };
    switch (src) {
      case 0: {
        auto [f, p] = yaclib::MakeSharedContract<V, Err>();
        early_obs(f);
        fulfil(std::move(p));
        Observers(w, e1, e2, std::move(f), ts, keep_main);
      } break;
      case 1: {
        auto [f, p] = yaclib::MakeSharedContractOn<V, Err>(e1);
        early_obs(f);
        auto& ob = w.New("Subscribe (inherited)", 1);
        f.Subscribe([&w, &ob](const R& r) {
          w.Fire(ob, OutOf(r));
        });
        fulfil(std::move(p));
        if (PB()) {
          auto& ob2 = w.New("Then (inherited)", 1);
          f.Then([&w, &ob2](const R& r) {
             w.Fire(ob2, OutOf(r));
           }).Detach();
        }
        Observers(w, e1, e2, std::move(f), ts, keep_main);
      } break;
      case 2: {
        auto p = yaclib::MakeSharedPromise<V, Err>();
        auto f = yaclib::Split(p);
        const mc::u32 subs = P(3);
        for (mc::u32 i = 0; i < subs; ++i) {
          auto& ob = w.New("subsumed by the promise");
          switch (P(3)) {
            case 0: {
              auto g = yaclib::Share(p);
              std::move(g).DetachInline([&w, &ob](R&& r) {
                w.Fire(ob, OutOf(r));
                R stolen = std::move(r);
              });
            } break;
            case 1: {
              auto [g, q] = yaclib::MakeSharedContract<V, Err>();
              g.SubscribeInline([&w, &ob](const R& r) {
                w.Fire(ob, OutOf(r));
              });
              yaclib::Connect(p, std::move(q));
            } break;
            default: {
              ob.want_exe = 2;
              auto g = yaclib::Share(p, e2);
              std::move(g).Detach([&w, &ob](R&& r) {
                w.Fire(ob, OutOf(r));
              });
            } break;
          }
        }
        early_obs(f);
        if (PB()) {
          Observers(w, e1, e2, std::move(f), ts, false);
          fulfil(std::move(p));
        } else {
          fulfil(std::move(p));
          if (P(4) == 3) {
            auto gone = std::move(f);  // only the subsumed promises are left
          } else {
            Observers(w, e1, e2, std::move(f), ts, keep_main);
          }
        }
      } break;
      case 3: {
        auto [u, p] = yaclib::MakeContract<V, Err>();
        if (PB()) {
          fulfil(std::move(p));
          auto f = yaclib::Split(std::move(u));
          Observers(w, e1, e2, std::move(f), ts, keep_main);
        } else {
          auto f = yaclib::Split(std::move(u));
          early_obs(f);
          fulfil(std::move(p));
          Observers(w, e1, e2, std::move(f), ts, keep_main);
        }
      } break;
      case 4: {
        auto [u, p] = yaclib::MakeContract<V, Err>();
        auto [f, q] = yaclib::MakeSharedContract<V, Err>();
        fulfil(std::move(p));
        early_obs(f);
        yaclib::Connect(std::move(u), std::move(q));
        Observers(w, e1, e2, std::move(f), ts, keep_main);
      } break;
      case 5: {
        auto [u, p] = yaclib::MakeSharedContract<V, Err>();
        auto [f, q] = yaclib::MakeSharedContract<V, Err>();
        fulfil(std::move(p));
        early_obs(f);
        yaclib::Connect(u, std::move(q));
        if (PB()) {
          Observers(w, e1, e2, std::move(u), ts, false);
        }
        Observers(w, e1, e2, std::move(f), ts, keep_main);
      } break;
      case 6: {
        // the coroutine rethrows the awaited failure and its Result is that exception
        if (w.expect.kind != kVal && w.expect.kind != kExc) {
          w.expect = {kExc, 99};
        }
        auto [u, p] = yaclib::MakeContract<V, Err>();
        bool early_fulfil = PB();
        if (early_fulfil) {
          fulfil(std::move(p));
        }
        bool await_first = PB();
        auto f = Produce(std::move(u), await_first);
        early_obs(f);
        if (!early_fulfil) {
          fulfil(std::move(p));
        }
        Observers(w, e1, e2, std::move(f), ts, keep_main);
      } break;
      default: {
        auto body = [&w, drop_promise, tok = Tok{}](SharedPromise<V, Err> p) {
          w.side.Write(41);
          St(w.started, 1);
          Fulfil<V>(std::move(p), w.expect, drop_promise);
        };
        auto f = yaclib::AsyncSharedContract<V, Err>(e1, std::move(body));
        early_obs(f);
        Observers(w, e1, e2, std::move(f), ts, keep_main);
      } break;
    }
    for (auto& t : ts) {
      t.join();
    }
    Finish(w, e1, e2, kSrc[src]);
  }
};

}  // namespace

MC_SCENARIO(c06_shared_val, "C06", 3) {
  Case<Val>::Run();
}
MC_SCENARIO(c06_shared_void, "C06", 1) {
  Case<void>::Run();
}
