// C01: a fulfilled Promise is delivered to its Future exactly once, intact
#include "common.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>

#include <optional>

namespace {
using namespace h;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Result;

struct Shared {
  Side side;
  Counter started{0};  // producer is about to fulfil
  Counter seen{0};     // continuation invocations
  Out expect;
  int run_exe = -1;  // executor id the continuation ran on

  template <typename R>
  void Observe(const R& r, const char* who) {
    if (Ld(started) == 0) {
      mc::Fail("", "%s: delivered before the promise was fulfilled", who);
    }
    Out o = OutOf(r);
    if (!(o == expect)) {
      mc::Fail("", "%s: observed %s, promise was set to %s", who, Str(o).c_str(), Str(expect).c_str());
    }
    side.Expect(41, who);
  }
};

enum Cons {
  kGet,
  kWaitTouch,
  kPollGet,
  kThenInline,
  kThenExe,
  kDetachInline,
  kDetachExe,
  kDetach,
  kDrop,
  kConnect,
  kConnectThen,
  kTimedGet,
  kThenInherit,
  kDetachInherit,
  kChain,
  kMoveAssignDrop,
  kConsCount
};
const char* const kConsName[] = {"Get",          "Wait+Touch", "poll Ready+Get const&", "ThenInline+Get", "Then(e)+Get", "DetachInline",
                                 "Detach(e)",    "Detach",     "drop future",           "Connect+Get",    "Connect+Then", "WaitFor+Get",
                                 "Then(inherited)+Get", "Detach(inherited)", "ThenInline chain+Get", "move-assign over"};

template <typename V>
yaclib::Result<V, Err> PassMoved(yaclib::Result<V, Err>&& r) {
  return std::move(r);
}

template <typename V, bool On>
struct Case {
  using F = std::conditional_t<On, FutureOn<V, Err>, Future<V, Err>>;

  static auto Contract(Exe& e) {
    if constexpr (On) {
      return yaclib::MakeContractOn<V, Err>(e);
    } else {
      return yaclib::MakeContract<V, Err>();
    }
  }

  static auto Cb(Shared& s, const char* who) {
    return [&s, who, tok = Tok{}](Result<V, Err>&& r) {
      std::ignore = tok.Alive();
      int n = Inc(s.seen);
      if (n != 1) {
        mc::Fail("", "%s: continuation invoked %d times", who, n);
      }
      s.run_exe = CurExe();
      s.Observe(r, who);
      Point("in continuation");
    };
  }
  static auto CbPass(Shared& s, const char* who) {
    return [&s, who, tok = Tok{}](Result<V, Err>&& r) -> Result<V, Err> {
      std::ignore = tok.Alive();
      int n = Inc(s.seen);
      if (n != 1) {
        mc::Fail("", "%s: continuation invoked %d times", who, n);
      }
      s.run_exe = CurExe();
      s.Observe(r, who);
      Point("in continuation");
      return std::move(r);
    };
  }

  static void GetFrom(Shared& s, auto&& f, const char* who) {
    auto r = std::forward<decltype(f)>(f).Get();
    s.Observe(r, who);
  }

  static void Run() {
    Quiet quiet;
    Shared s;
    Exe e1{1, 1}, e2{2, 1};
    s.expect = Norm<V>(GenOut(100 + static_cast<int>(P(8))));
    const bool drop_promise = PB();
    const auto cons = static_cast<Cons>(P(kConsCount));
    const bool consumer_spawned = PB();
    const mc::u32 pre_p = P(3), pre_c = P(3);
    mc::Describe("%s contract, producer sets %s%s, consumer %s", On ? "On" : "plain", Str(s.expect).c_str(),
                 s.expect == kStop && drop_promise ? " by dropping" : "", kConsName[cons]);
    mc::Label(kConsName[cons]);
    bool must_run = false;
    bool must_not_run = false;
    int want_exe = -1;
    bool any_exe = true;
    {
      auto [f, p] = Contract(e1);
      Thread producer{[&s, p = std::move(p), pre_p, drop_promise]() mutable {
        for (mc::u32 i = 0; i < pre_p; ++i) {
          Point();
        }
        s.side.Write(41);
        St(s.started, 1);
        Fulfil<V>(std::move(p), s.expect, drop_promise);
      }};
      auto consume = [&s, &e2, cons, pre_c, &must_run, &must_not_run, &want_exe, &any_exe, f = std::move(f)]() mutable {
        for (mc::u32 i = 0; i < pre_c; ++i) {
          Point();
        }
        switch (cons) {
          case kGet:
            GetFrom(s, std::move(f), "Get");
            break;
          case kWaitTouch:
            yaclib::Wait(f);
            MC_READY(f.Ready(), "Wait returned but the future is not Ready");
            s.Observe(std::as_const(f).Touch(), "Touch const&");
            if (P(2) != 0) {
              auto r = std::move(f).Touch();
              s.Observe(r, "Touch&&");
            } else {
              GetFrom(s, std::move(f), "Get after Wait");
            }
            break;
          case kPollGet: {
            bool was = false;
            for (int i = 0; i < 6; ++i) {
              bool ready = f.Ready();
              MC_CHECK(!was || ready, "Ready() went back to false");
              if (ready) {
                was = true;
                s.Observe(std::as_const(f).Touch(), "Touch after Ready");
              }
              const auto* r = std::as_const(f).Get();
              MC_CHECK(!was || r != nullptr, "Get const& returned null after Ready");
              if (r != nullptr) {
                was = true;
                s.Observe(*r, "Get const&");
              }
              Point();
            }
            if (P(2) != 0) {
              GetFrom(s, std::move(f), "Get after poll");
            } else {
              must_run = true;
              std::move(f).DetachInline(Cb(s, "DetachInline after poll"));
            }
          } break;
          case kThenInline: {
            must_run = true;
            auto g = std::move(f).ThenInline(CbPass(s, "ThenInline"));
            MC_CHECK(!f.Valid(), "future still valid after ThenInline");
            GetFrom(s, std::move(g), "Get after ThenInline");
          } break;
          case kThenExe: {
            must_run = true;
            want_exe = 2;
            any_exe = false;
            auto g = std::move(f).Then(e2, CbPass(s, "Then(e)"));
            GetFrom(s, std::move(g), "Get after Then(e)");
          } break;
          case kDetachInline:
            must_run = true;
            std::move(f).DetachInline(Cb(s, "DetachInline"));
            break;
          case kDetachExe:
            must_run = true;
            want_exe = 2;
            any_exe = false;
            std::move(f).Detach(e2, Cb(s, "Detach(e)"));
            break;
          case kDetach:
            must_not_run = true;
            std::move(f).Detach();
            break;
          case kDrop: {
            must_not_run = true;
            [[maybe_unused]] auto dropped = std::move(f);
          } break;
          case kConnect:
          case kConnectThen: {
            auto [f2, p2] = yaclib::MakeContract<V, Err>();
            if (cons == kConnect) {
              yaclib::Connect(std::move(f), std::move(p2));
              GetFrom(s, std::move(f2), "Get after Connect");
            } else {
              must_run = true;
              if (P(2) != 0) {
                std::move(f2).DetachInline(Cb(s, "DetachInline before Connect"));
                yaclib::Connect(std::move(f), std::move(p2));
              } else {
                yaclib::Connect(std::move(f), std::move(p2));
                std::move(f2).DetachInline(Cb(s, "DetachInline after Connect"));
              }
            }
          } break;
          case kTimedGet: {
            auto before = mc::Now();
            bool ok = yaclib::WaitFor(std::chrono::nanoseconds{300}, f);
            if (ok) {
              MC_READY(f.Ready(), "WaitFor returned true, future is not Ready");
            } else {
              MC_CHECK(mc::Now() >= before + 300, "WaitFor returned false before the deadline");
            }
            if (P(2) != 0) {
              GetFrom(s, std::move(f), "Get after WaitFor");
            } else {
              must_run = true;
              std::move(f).DetachInline(Cb(s, "DetachInline after WaitFor"));
            }
          } break;
          case kThenInherit:
            if constexpr (On) {
              must_run = true;
              want_exe = 1;
              any_exe = false;
              auto g = std::move(f).Then(CbPass(s, "Then(inherited)"));
              GetFrom(s, std::move(g), "Get after Then(inherited)");
            } else {
              GetFrom(s, std::move(f), "Get");
            }
            break;
          case kDetachInherit:
            if constexpr (On) {
              must_run = true;
              want_exe = 1;
              any_exe = false;
              std::move(f).Detach(Cb(s, "Detach(inherited)"));
            } else {
              must_run = true;
              std::move(f).DetachInline(Cb(s, "DetachInline"));
            }
            break;
          case kChain: {
            must_run = true;
            auto g = std::move(f)
                       .ThenInline([](Result<V, Err>&& r) {
                         return PassMoved<V>(std::move(r));
                       })
                       .ThenInline(CbPass(s, "second ThenInline"))
                       .ThenInline([](Result<V, Err>&& r) {
                         return PassMoved<V>(std::move(r));
                       });
            GetFrom(s, std::move(g), "Get after chain");
          } break;
          case kMoveAssignDrop:
            must_not_run = true;
            f = F{};
            break;
          default:
            break;
        }
      };
      if (consumer_spawned) {
        Thread consumer{std::move(consume)};
        consumer.join();
      } else {
        consume();
        auto end = std::move(consume);
      }
      producer.join();
    }
    e1.Finish();
    e2.Finish();
    e1.Finish();
    MC_CHECK(!must_run || Ld(s.seen) == 1, "%s: continuation invoked %d times", kConsName[cons], Ld(s.seen));
    MC_CHECK(!must_not_run || Ld(s.seen) == 0, "%s: something ran although the future was dropped", kConsName[cons]);
    if (!any_exe) {
      MC_CHECK_TAG("+C05", s.run_exe == want_exe, "%s ran on executor %d instead of %d", kConsName[cons], s.run_exe,
                   want_exe);
    }
    if (mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }
};

}  // namespace

MC_SCENARIO(c01_promise_val, "C01", 4) {
  Case<Val, false>::Run();
}
MC_SCENARIO(c01_promise_val_on, "C01", 4) {
  Case<Val, true>::Run();
}
MC_SCENARIO(c01_promise_move, "C01", 2) {
  Case<MVal, false>::Run();
}
MC_SCENARIO(c01_promise_move_on, "C01", 1) {
  Case<MVal, true>::Run();
}
MC_SCENARIO(c01_promise_void, "C01", 2) {
  Case<void, false>::Run();
}
MC_SCENARIO(c01_promise_void_on, "C01", 1) {
  Case<void, true>::Run();
}
