// C05: one SharedFuture with many continuations: each of them runs where it was told
#include "pipe_run.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/exe/submit.hpp>

namespace {

using namespace pl;
using FI = Future<int, Err>;
using FO = FutureOn<int, Err>;
using SF = SharedFuture<int, Err>;
using SO = SharedFutureOn<int, Err>;

struct Place {
  int exe = -1;         // the executor the step was given, -1: inline
  int a = 0, b = 0, c = 0;  // inline: one of these
  Counter fired{0};
  Counter ran{-5};
  int want = 0;
};

struct Fan {
  int operator()(int v) {
    tok.Alive();
    Note(v);
    return v + 1;
  }
  void Note(int v) const {
    MC_CHECK(Inc(p->fired) == 1, "a continuation was called twice");
    MC_CHECK_TAG("+C06,C02", v == p->want, "a continuation received %d instead of %d", v, p->want);
    const int e = CurExe();
    St(p->ran, e);
    if (p->exe >= 2) {
      MC_CHECK(e == p->exe, "a continuation of executor %d ran on executor %d", p->exe, e);
    } else if (p->exe < 0) {
      MC_CHECK(e == p->a || e == p->b || e == p->c, "an inline continuation ran on executor %d, not on %d, %d or %d", e, p->a, p->b, p->c);
    }
  }
  Place* p;
  Tok tok;
};
struct FanSub {
  void operator()(const yaclib::Result<int, Err>& r) {
    MC_CHECK_TAG("+C02", bool{r}, "a continuation received a failure");
    f.Note(r.Value());
  }
  Fan f;
};

struct Next {
  int form = fInline;  // of the steps after the first one
  int exe = 2;
};
enum First { gThenInline, gThen, gThenE, gSubInline, gSub, gSubE, gShare, gShareE, gConnectOn, gFirsts };
const char* const kGName[] = {"ThenInline", "Then(f)", "Then(e, f)", "SubscribeInline", "Subscribe(f)", "Subscribe(e, f)", "Share", "Share(e)", "Connect"};
struct Branch {
  int first = 0;
  int exe = 2;
  int thread = 0;
  int on = -1;  // attached from inside of this executor
  std::vector<Next> next;
  std::deque<Place> places;
  std::variant<std::monostate, FI, FO> out;
  int want = 0;
};

struct FanCase {
  Run* run;
  int home = -1;  // executor of a SharedFutureOn
  int source = -1;  // where the value is set
};

template <typename H>
void AttachBranch(FanCase& c, Branch& b, const H& sf) {
  constexpr bool kOn = std::is_same_v<H, SO>;
  const int here = CurExe();
  int at = -1;  // executor a Then without one takes, -1: there is none
  int prev = c.source;  // where the previous step ran
  int v = 10;
  int prev2 = -1;
  auto place = [&](int exe) {
    auto& p = b.places.emplace_back();
    p.exe = exe;
    p.a = here;
    p.b = prev;
    p.c = prev2;
    p.want = v;
    ++v;
    if (exe >= 0) {
      prev = exe;
      prev2 = exe;
    }
    return Fan{&p, {}};
  };
  auto& e = *c.run->exe[b.exe];
  switch (b.first) {
    case gThenInline: {
      at = kOn ? c.home : -1;
      b.out = sf.ThenInline(place(-1));
    } break;
    case gThen:
      if constexpr (kOn) {
        at = c.home;
        b.out = sf.Then(place(c.home));
        break;
      }
      [[fallthrough]];
    case gThenE:
      at = b.exe;
      b.out = sf.Then(e, place(b.exe));
      break;
    case gSubInline:
      sf.SubscribeInline(FanSub{place(-1)});
      return;
    case gSub:
      if constexpr (kOn) {
        sf.Subscribe(FanSub{place(c.home)});
        return;
      }
      [[fallthrough]];
    case gSubE: {
      const yaclib::SharedFutureBase<int, Err>& base = sf;
      base.Subscribe(e, FanSub{place(b.exe)});
    }
      return;
    case gShare:
      b.out = yaclib::Share(sf);
      break;
    case gShareE:
      b.out = yaclib::Share(sf, e);
      at = b.exe;
      break;
    default: {
      auto [f, p] = yaclib::MakeContractOn<int, Err>(e);
      yaclib::Connect(sf, std::move(p));
      b.out = std::move(f);
      at = b.exe;
    }
  }
  for (auto& n : b.next) {
    std::visit(
      [&](auto&& f) {
        using T = std::decay_t<decltype(f)>;
        if constexpr (!std::is_same_v<T, std::monostate>) {
          if (n.form == fInline) {
            auto g = std::move(f).ThenInline(place(-1));
            b.out = std::move(g);
            return;
          }
          if constexpr (std::is_same_v<T, FO>) {
            if (n.form == fThen) {
              auto g = std::move(f).Then(place(at));
              b.out = std::move(g);
              return;
            }
          }
          at = n.exe;
          auto g = std::move(f).Then(*c.run->exe[n.exe], place(n.exe));
          b.out = std::move(g);
        }
      },
      std::move(b.out));
  }
  b.want = v;
}

template <typename H>
void FanBody(FanCase& c, Env& env, std::deque<Branch>& bs, H sf, std::optional<yaclib::SharedPromise<int, Err>> sp, int threads, int set_on) {
  std::deque<h::Thread> ts;
  auto attach = [&](int t, const H& f) {
    for (auto& b : bs) {
      if (b.thread == t) {
        if (b.on < 0) {
          AttachBranch(c, b, f);
        } else {
          yaclib::Submit(*c.run->exe[b.on], [&c, &b, f] {
            AttachBranch(c, b, f);
          });
        }
      }
    }
  };
  for (int t = 1; t < threads; ++t) {
    ts.emplace_back([&, t, f = sf] {
      attach(t, f);
    });
  }
  if (sp) {
    if (set_on >= 2) {
      ts.emplace_back([&, s = std::move(*sp)]() mutable {
        yaclib::Submit(*c.run->exe[set_on], [s = std::move(s)]() mutable {
          std::move(s).Set(10);
        });
      });
    } else {
      ts.emplace_back([s = std::move(*sp)]() mutable {
        std::move(s).Set(10);
      });
    }
    sp.reset();
  }
  attach(0, sf);
  if (P(2) != 0) {
    sf = {};
  }
  for (auto& t : ts) {
    t.join();
  }
  mc::Quiesce();
  sf = {};
  env.Finish();  // joins: what the executors' threads wrote may be read below
  int expect[kMaxExe]{};
  for (auto& b : bs) {
    for (auto& p : b.places) {
      MC_CHECK(Ld(p.fired) == 1, "a continuation was called %d times", Ld(p.fired));
      expect[p.exe < 0 ? 0 : p.exe] += 1;
    }
    if (b.on >= 2) {
      expect[b.on] += 1;
    }
    std::visit(
      [&](auto&& f) {
        using T = std::decay_t<decltype(f)>;
        if constexpr (!std::is_same_v<T, std::monostate>) {
          MC_CHECK_TAG("+C06", f.Ready(), "a branch is not ready");
          MC_CHECK_TAG("+C06,C02", std::move(f).Touch().Ok() == b.want, "a branch has a wrong value");
        }
      },
      std::move(b.out));
    b.out = std::monostate{};
  }
  if (set_on >= 2) {
    expect[set_on] += 1;
  }
  for (std::size_t i = 0; i < env.vias.size(); ++i) {
    MC_CHECK(Ld(env.vias[i].submits) == expect[2 + i], "executor %d: %d submission(s), expected %d", static_cast<int>(2 + i), Ld(env.vias[i].submits), expect[2 + i]);
  }
}

MC_SCENARIO(fan, "C05", 2) {
  Quiet quiet;
  Run run;
  Env env{false};
  const int n = 1 + static_cast<int>(P(3));
  GenExes(env, n, false);
  env.Fill(run);
  g_run = &run;
  FanCase c{&run};
  std::deque<Branch> bs;
  const int threads = 1 + static_cast<int>(P(3));
  const u32 count = 1 + P(5);
  auto exe = [&] {
    return 2 + static_cast<int>(P(static_cast<u32>(n)));
  };
  const bool on = P(3) != 0;
  const u32 src = P(3);
  std::string d = env.text;
  if (on) {
    c.home = exe();
    d += "home e" + std::to_string(c.home) + "; ";
  }
  int set_on = -1;
  for (u32 i = 0; i < count; ++i) {
    auto& b = bs.emplace_back();
    b.first = static_cast<int>(P(gFirsts));
    b.exe = exe();
    b.thread = static_cast<int>(P(static_cast<u32>(threads)));
    b.on = P(4) == 3 ? exe() : -1;
    d += std::string{kGName[b.first]} + "@e" + std::to_string(b.exe) + "/t" + std::to_string(b.thread) + (b.on >= 0 ? " in e" + std::to_string(b.on) : "");
    mc::Label(kGName[b.first]);
    const u32 m = b.first >= gSubInline && b.first <= gSubE ? 0 : P(3);
    for (u32 k = 0; k < m; ++k) {
      auto& x = b.next.emplace_back();
      x.form = static_cast<int>(P(3));
      x.exe = exe();
      d += x.form == fInline ? ".inline" : x.form == fThen ? ".then" : ".then@e" + std::to_string(x.exe);
    }
    d += "; ";
  }
  c.source = CurExe();
  if (src == 0) {
    set_on = P(2) != 0 ? exe() : -1;
    if (set_on >= 2) {
      c.source = set_on;
    }
    d += set_on >= 2 ? "set in e" + std::to_string(set_on) : "set by a thread";
    mc::Describe("%s", d.c_str());
    if (on) {
      auto [f, p] = yaclib::MakeSharedContractOn<int, Err>(*run.exe[c.home]);
      FanBody<SO>(c, env, bs, std::move(f), std::move(p), threads, set_on);
    } else {
      auto [f, p] = yaclib::MakeSharedContract<int, Err>();
      FanBody<SF>(c, env, bs, std::move(f), std::move(p), threads, set_on);
    }
  } else {
    d += src == 1 ? "RunShared" : "RunShared, On(nullptr)";
    mc::Describe("%s", d.c_str());
    c.source = on ? c.home : CurExe();
    set_on = on ? c.home : -1;
    if (on && src == 1) {
      FanBody<SO>(c, env, bs, yaclib::RunShared<Err>(*run.exe[c.home], [] { return 10; }), std::nullopt, threads, set_on);
    } else if (on) {
      FanBody<SF>(c, env, bs, yaclib::RunShared<Err>(*run.exe[c.home], [] { return 10; }).On(nullptr), std::nullopt, threads, set_on);
    } else {
      FanBody<SF>(c, env, bs, yaclib::RunShared<Err>([] { return 10; }), std::nullopt, threads, set_on);
    }
  }
  if (bs.size() >= 2 && mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
  g_run = nullptr;
}

}  // namespace
