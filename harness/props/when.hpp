// C09 / C10: WhenAll, Join, WhenAny
#pragma once

#include "common.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>

#include <list>
#include <tuple>
#include <variant>

namespace {
using namespace h;
using yaclib::FailPolicy;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;

// default constructible value for tuples
struct DVal : Val {
  DVal() noexcept : Val{-7} {
  }
  explicit DVal(int v) noexcept : Val{v} {
  }
};
struct DMVal : MVal {
  DMVal() noexcept : MVal{-8} {
  }
  explicit DMVal(int v) noexcept : MVal{v} {
  }
};

inline int PayloadOf(const Val& v) noexcept {
  return v.Get();
}

enum Fn { kAll, kJoin, kAny };
const char* const kFn[] = {"WhenAll", "Join", "WhenAny"};
const char* PolicyName(FailPolicy f) {
  return f == FailPolicy::None ? "None" : f == FailPolicy::FirstFail ? "FirstFail" : "LastFail";
}

// What the output carried
struct Got {
  bool failed = false;
  Out fail;
  std::vector<Out> list;  // one per input (All) or the winner (Any)
};

template <typename T>
Out ElemOut(const T& x) {
  if constexpr (yaclib::is_result_v<T>) {
    return OutOf(x);
  } else {
    return {kVal, h::PayloadOf(x)};
  }
}
template <typename T>
void Elems(const std::vector<T>& v, std::vector<Out>& out) {
  for (auto& x : v) {
    out.push_back(ElemOut(x));
  }
}
template <typename... Ts>
void Elems(const std::tuple<Ts...>& t, std::vector<Out>& out) {
  std::apply(
    [&](const auto&... x) {
      (out.push_back(ElemOut(x)), ...);
    },
    t);
}
template <typename... Ts>
void Elems(const std::variant<Ts...>& v, std::vector<Out>& out) {
  std::visit(
    [&](const auto& x) {
      out.push_back(ElemOut(x));
    },
    v);
}
template <typename T>
void Elems(const T& x, std::vector<Out>& out) {
  out.push_back(ElemOut(x));
}

template <typename V, typename E>
Got GotOf(const Result<V, E>& r) {
  Got g;
  switch (r.State()) {
    case yaclib::ResultState::Value:
      Elems(r.Value(), g.list);
      break;
    case yaclib::ResultState::Exception:
      g.failed = true;
      g.fail = {kExc, ExPayload(r.Exception())};
      break;
    case yaclib::ResultState::Error:
      g.failed = true;
      g.fail = {kErr, r.Error().code};
      break;
    default:
      g.failed = true;
      g.fail = {kEmptyRes, 0};
  }
  return g;
}

struct In {
  Out out;
  bool drop = false;
  int start = -1, end = -1;  // history positions of the call that completed it
};

struct SetterBase {
  virtual ~SetterBase() = default;
  virtual void Run() = 0;
};

struct World {
  std::vector<In> in;
  std::vector<std::unique_ptr<SetterBase>> setters;  // one per distinct promise
  std::vector<std::vector<int>> inputs_of;           // inputs fed by setter k (copies of one SharedFuture)
  std::vector<std::unique_ptr<SetterBase>> bystanders;
  Counter seq{0};
  int w0 = -1, w1 = -1;  // When call + attaching the observer
  int tout = -1;
  int outs = 0;
  bool by_callback = false;
  Got got;
  Side side[8];
  Counter reserved_state{0};
  int reserved = -1;

  int Seq() {
    return Inc(seq);
  }
  void Complete(int k) {
    for (int i : inputs_of[k]) {
      side[i].Write(50 + i);
    }
    const int s = Seq();
    for (int i : inputs_of[k]) {
      in[i].start = s;
    }
    setters[k]->Run();
    const int e = Seq();
    for (int i : inputs_of[k]) {
      in[i].end = e;
    }
  }
  void RunReserved() {
    if (reserved >= 0 && Inc(reserved_state) == 1) {
      Complete(reserved);
    }
  }
  int EffStart(int i) const {
    return std::max(in[i].start, w0);
  }
  // tight: the combinator has certainly seen input i here
  int EffEnd(int i) const {
    return std::max(in[i].end, w1 < 0 ? 0 : (in[i].end < w0 ? w1 : (in[i].end < w1 ? std::max(in[i].end, EndInsideWhen(i)) : in[i].end)));
  }
  int EndInsideWhen(int) const {
    return w1;
  }
};

template <typename V, typename P>
struct Setter final : SetterBase {
  Setter(P&& p, const Out& o, bool d) : promise{std::move(p)}, out{o}, drop{d} {
  }
  void Run() final {
    Fulfil<V>(std::move(promise), out, drop);
    auto rest = std::move(promise);
  }
  P promise;
  Out out;
  bool drop;
};

template <typename V>
struct Bystander final : SetterBase {
  Bystander(SharedFuture<V, Err> s, const Out& o) : sf{std::move(s)}, out{o} {
  }
  void Run() final {
    const Out o = OutOf(sf.Get());
    MC_CHECK_TAG("+C06", o == out, "a copy of a shared input reads %s instead of %s", Str(o).c_str(), Str(out).c_str());
  }
  SharedFuture<V, Err> sf;
  Out out;
};

// one way of obtaining an input of a given future type
template <typename F>
struct Maker;

template <typename V>
void Push(World& w, const Out& o, bool drop, auto&& promise) {
  using Pr = std::decay_t<decltype(promise)>;
  w.setters.push_back(std::make_unique<Setter<V, Pr>>(std::move(promise), o, drop));
  w.inputs_of.push_back({static_cast<int>(w.in.size())});
  w.in.push_back({o, drop});
}

template <typename V>
Out GenFor(int i, int fail_bias) {
  Out o = P(4) < static_cast<mc::u32>(fail_bias) ? GenOut(10 + i) : Out{kVal, 10 + i};
  return Norm<V>(o);
}

template <typename V>
struct Maker<Future<V, Err>> {
  static Future<V, Err> Make(World& w, int bias) {
    const Out o = GenFor<V>(static_cast<int>(w.in.size()), bias);
    const bool drop = PB();
    auto [f, p] = yaclib::MakeContract<V, Err>();
    Push<V>(w, o, drop, std::move(p));
    switch (P(4)) {
      case 1:
        return std::move(f).ThenInline([tok = Tok{}](Result<V, Err>&& r) -> Result<V, Err> {
          return std::move(r);
        });
      case 2: {
        auto [g, q] = yaclib::MakeContract<V, Err>();
        return yaclib::MakeFuture<void, Err>().ThenInline([f = std::move(f)]() mutable {
          return std::move(f);
        });
      }
      default:
        return std::move(f);
    }
  }
};
template <typename V>
struct Maker<FutureOn<V, Err>> {
  static FutureOn<V, Err> Make(World& w, int bias) {
    const Out o = GenFor<V>(static_cast<int>(w.in.size()), bias);
    const bool drop = PB();
    auto [f, p] = yaclib::MakeContractOn<V, Err>(yaclib::MakeInline());
    Push<V>(w, o, drop, std::move(p));
    return std::move(f);
  }
};
template <typename V>
struct Maker<SharedFuture<V, Err>> {
  static SharedFuture<V, Err> Make(World& w, int bias) {
    // sometimes a copy of an earlier input
    auto& last = Last();
    if (last.Valid() && last_world == &w && P(4) == 3) {
      const int i = static_cast<int>(w.in.size());
      const In in0 = w.in[last_input];
      w.inputs_of[last_setter].push_back(i);
      w.in.push_back({in0.out, in0.drop});
      mc::Label("the same SharedFuture twice");
      return last;
    }
    const int i = static_cast<int>(w.in.size());
    const Out o = GenFor<V>(i, bias);
    const bool drop = PB();
    auto make = [&]() -> SharedFuture<V, Err> {
      if (P(3) == 2) {
        auto [u, p] = yaclib::MakeContract<V, Err>();
        Push<V>(w, o, drop, std::move(p));
        return yaclib::Split(std::move(u));
      }
      auto [f, p] = yaclib::MakeSharedContract<V, Err>();
      Push<V>(w, o, drop, std::move(p));
      return std::move(f);
    };
    auto f = make();
    if (P(3) == 2) {
      w.bystanders.push_back(std::make_unique<Bystander<V>>(f, o));
    }
    if (PB()) {
      last_world = &w;
      last_input = i;
      last_setter = static_cast<int>(w.setters.size()) - 1;
      last = f;
    }
    return f;
  }
  static SharedFuture<V, Err>& Last() {
    static SharedFuture<V, Err> f;
    return f;
  }
  static void Reset() {
    auto gone = std::move(Last());
    last_world = nullptr;
  }
  static inline World* last_world = nullptr;
  static inline int last_input = 0, last_setter = 0;
};
template <typename V>
struct Maker<SharedFutureOn<V, Err>> {
  static SharedFutureOn<V, Err> Make(World& w, int bias) {
    const Out o = GenFor<V>(static_cast<int>(w.in.size()), bias);
    const bool drop = PB();
    auto [f, p] = yaclib::MakeSharedContractOn<V, Err>(yaclib::MakeInline());
    Push<V>(w, o, drop, std::move(p));
    return std::move(f);
  }
};

struct Cfg {
  Fn fn;
  FailPolicy policy;
  bool same_payloads = false;
};

void Judge(const World& w, const Cfg& c) {
  const int n = static_cast<int>(w.in.size());
  const Got& g = w.got;
  int last_end = 0, last_start = 0;
  bool any_fail = false, any_val = false;
  for (int i = 0; i < n; ++i) {
    last_end = std::max(last_end, w.in[i].end);
    last_start = std::max(last_start, w.in[i].start);
    (w.in[i].out.kind == kVal ? any_val : any_fail) = true;
  }
  const int not_later = std::max(last_end, w.w1);
  auto when_all_done = [&](const char* what) {
    if (w.tout < 0) {
      return;
    }
    if (w.by_callback) {
      MC_CHECK(w.tout <= not_later, "%s<%s>: %s came after the last input had completed", kFn[c.fn], PolicyName(c.policy), what);
    }
    MC_CHECK(w.tout > last_start, "%s<%s>: %s came before the last input was completed", kFn[c.fn], PolicyName(c.policy), what);
  };
  // the winner has to be one of the inputs accepted by `is`, and no other such input may certainly precede (first) or
  // follow (last) it; decided: the output has to come within the completion of the winner
  auto winner = [&](auto is, const Out& got, bool last, bool decided, const char* what) {
    bool matches = false, in_order = false, in_time = false;
    for (int i = 0; i < n; ++i) {
      if (!is(i) || !(w.in[i].out == got)) {
        continue;
      }
      matches = true;
      bool ok = true;
      for (int j = 0; j < n; ++j) {
        if (j == i || !is(j) || (w.in[j].start == w.in[i].start)) {
          continue;
        }
        if (last ? w.EffStart(j) > w.EffEnd(i) : w.EffEnd(j) < w.EffStart(i)) {
          ok = false;
        }
      }
      if (!ok) {
        continue;
      }
      in_order = true;
      if (w.tout < 0 || !decided ||
          (w.tout > w.in[i].start && (!w.by_callback || w.tout <= std::max(w.in[i].end, w.w1)))) {
        in_time = true;
      }
    }
    MC_CHECK(matches, "%s<%s>: the output carries %s, which is not %s", kFn[c.fn], PolicyName(c.policy), Str(got).c_str(), what);
    MC_CHECK(in_order, "%s<%s>: the output carries %s, another input was certainly %s", kFn[c.fn], PolicyName(c.policy),
             Str(got).c_str(), last ? "later" : "earlier");
    MC_CHECK(in_time, "%s<%s>: the output was not completed by the input that decided it (%s)", kFn[c.fn], PolicyName(c.policy),
             Str(got).c_str());
  };
  auto is_fail = [&](int i) {
    return w.in[i].out.kind != kVal;
  };
  auto is_val = [&](int i) {
    return w.in[i].out.kind == kVal;
  };
  if (c.fn != kAny) {
    if (c.policy == FailPolicy::FirstFail && any_fail) {
      MC_CHECK(g.failed, "%s<FirstFail>: an input failed, the output is a value", kFn[c.fn]);
      winner(is_fail, g.fail, false, true, "the failure of any input");
      return;
    }
    MC_CHECK(!g.failed, "%s<%s>: the output is %s", kFn[c.fn], PolicyName(c.policy), Str(g.fail).c_str());
    when_all_done("the output");
    if (c.fn == kAll && !g.list.empty() && !(g.list.size() == 1 && n != 1)) {
      MC_CHECK(static_cast<int>(g.list.size()) == n, "WhenAll: %d results for %d inputs", static_cast<int>(g.list.size()), n);
      for (int i = 0; i < n; ++i) {
        MC_CHECK(g.list[i] == w.in[i].out, "WhenAll<%s>: index %d carries %s instead of %s", PolicyName(c.policy), i,
                 Str(g.list[i]).c_str(), Str(w.in[i].out).c_str());
      }
    }
    return;
  }
  auto is_any = [](int) {
    return true;
  };
  const Out got = g.failed ? g.fail : g.list.at(0);
  if (c.policy == FailPolicy::None) {
    winner(is_any, got, false, true, "the result of any input");
  } else if (any_val) {
    MC_CHECK(!g.failed, "WhenAny<%s>: the output is %s although an input has a value", PolicyName(c.policy), Str(g.fail).c_str());
    winner(is_val, got, false, true, "the value of any input");
  } else {
    MC_CHECK(g.failed, "WhenAny<%s>: every input failed, the output is a value", PolicyName(c.policy));
    winner(is_fail, got, c.policy == FailPolicy::LastFail, false, "the failure of any input");
    when_all_done("the failure");
  }
}

// inputs are made, `when` consumes them and returns the output future
template <typename When>
void Play(World& w, const Cfg& c, When&& when) {
  const int setters = static_cast<int>(w.setters.size());
  const int n = static_cast<int>(w.in.size());
  mc::Label(kFn[c.fn]);
  std::string d = std::string{kFn[c.fn]} + "<" + PolicyName(c.policy) + "> of";
  for (auto& i : w.in) {
    d += " " + Str(i.out);
  }
  // who completes which input: 0 before the call, 1..3 a thread, 4 reserved for the output's continuation
  std::vector<std::vector<int>> plan(4);
  const bool reserve = setters > 1 && P(4) == 3;
  if (reserve) {
    w.reserved = static_cast<int>(P(setters));
  }
  for (int k = 0; k < setters; ++k) {
    if (k != w.reserved) {
      auto& list = plan[P(4)];
      if (PB()) {
        list.push_back(k);
      } else {
        list.insert(list.begin(), k);
      }
    }
  }
  const mc::u32 mode = P(5);
  const bool start_first = PB();
  const bool lookers = !w.bystanders.empty();
  static const char* const kMode[] = {"callback", "callback+Get", "Get", "dropped", "Then(e)"};
  mc::Label(kMode[mode]);
  mc::Describe("%s, output: %s", d.c_str(), kMode[mode]);
  Exe e{3, 1};
  std::vector<Thread> ts;
  int producers = 0;
  for (int k : plan[0]) {
    w.Complete(k);
  }
  auto start = [&] {
    for (int t = 1; t < 4; ++t) {
      if (!plan[t].empty()) {
        ++producers;
        ts.emplace_back([&w, list = plan[t]] {
          for (int k : list) {
            w.Complete(k);
          }
        });
      }
    }
    if (lookers) {
      ts.emplace_back([&w] {
        for (auto& b : w.bystanders) {
          b->Run();
        }
      });
    }
  };
  if (start_first) {
    start();
  }
  w.w0 = w.Seq();
  auto out = when();
  using F = decltype(out);
  using V = yaclib::async_value_t<F>;
  using R = Result<V, Err>;
  MC_CHECK(n == 0 || out.Valid(), "%s: invalid output for %d inputs", kFn[c.fn], n);
  auto see = [&w](const R& r) {
    w.got = GotOf(r);
    if (++w.outs != 1) {
      mc::Fail("", "the output completed %d times", w.outs);
    }
  };
  auto on_out = [&w, &see](const R& r) {
    w.tout = w.Seq();
    see(r);
    w.RunReserved();
  };
  auto finish = [&] {
    if (!start_first) {
      start();
    }
    for (int t = 0; t < producers; ++t) {
      ts[t].join();
    }
    w.RunReserved();
    if (lookers) {
      ts.back().join();
    }
  };
  bool observed = true;
  switch (mode) {
    case 0:
      w.by_callback = true;
      std::move(out).DetachInline([&on_out, tok = Tok{}](R&& r) {
        on_out(r);
      });
      w.w1 = w.Seq();
      finish();
      break;
    case 1: {
      w.by_callback = true;
      auto f = std::move(out).ThenInline([&on_out, tok = Tok{}](R&& r) -> R {
        on_out(r);
        return std::move(r);
      });
      w.w1 = w.Seq();
      finish();
      MC_READY(f.Ready(), "%s<%s>: all inputs completed, the output is not", kFn[c.fn], PolicyName(c.policy));
      auto r = std::move(f).Get();
    } break;
    case 2: {
      w.w1 = w.Seq();
      if (w.reserved >= 0 || PB()) {
        // Ready only after everything that decides it
        finish();
        MC_READY(out.Ready(), "%s<%s>: all inputs completed, the output is not", kFn[c.fn], PolicyName(c.policy));
        see(std::move(out).Get());
      } else {
        if (!start_first) {
          start();
        }
        auto r = std::move(out).Get();
        w.tout = w.Seq();
        see(r);
        for (auto& t : ts) {
          t.join();
        }
      }
    } break;
    case 3: {
      w.w1 = w.Seq();
      observed = false;
      std::move(out).Detach();
      finish();
    } break;
    default:
      w.w1 = w.Seq();
      std::move(out).Detach(e, [&see](R&& r) {
        MC_CHECK_TAG("+C05", CurExe() == 3, "the continuation of a combinator ran on executor %d", CurExe());
        see(r);
      });
      finish();
  }
  e.Finish();
  if (observed) {
    MC_CHECK(w.outs == 1, "%s<%s>: all inputs completed, the output completed %d times", kFn[c.fn], PolicyName(c.policy), w.outs);
    for (int i = 0; i < n; ++i) {
      w.side[i].Expect(50 + i, "producer");
    }
    Judge(w, c);
  }
  if (n >= 2 && mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
}

void ResetLast() {
  Maker<SharedFuture<Val, Err>>::Reset();
  Maker<SharedFuture<void, Err>>::Reset();
  Maker<SharedFuture<DVal, Err>>::Reset();
}

int Bias() {
  const mc::u32 b = P(4);
  return b == 0 ? 0 : b == 1 ? 4 : b == 2 ? 2 : 1;
}

// ------------------------------------------------------------------------------------------------ iterator forms
template <Fn fn, FailPolicy F, typename It>
auto CallIt(It begin, std::size_t n, bool end_form) {
  if constexpr (requires { begin - begin; }) {
    if (end_form) {
      if constexpr (fn == kAll) {
        return yaclib::WhenAll<F>(begin, begin + n);
      } else if constexpr (fn == kJoin) {
        return yaclib::Join<F>(begin, begin + n);
      } else {
        return yaclib::WhenAny<F>(begin, begin + n);
      }
    }
  }
  if constexpr (fn == kAll) {
    return yaclib::WhenAll<F>(begin, n);
  } else if constexpr (fn == kJoin) {
    return yaclib::Join<F>(begin, n);
  } else {
    return yaclib::WhenAny<F>(begin, n);
  }
}

template <Fn fn, FailPolicy F, typename Fut>
void Iter() {
  Quiet quiet;
  {
    World w;
    const int bias = Bias();
    const int n = P(8) == 7 ? 0 : 1 + static_cast<int>(P(5));
    if (n == 0) {
      std::vector<Fut> none;
      mc::Label("empty input set");
      mc::Describe("%s<%s> of nothing", kFn[fn], PolicyName(F));
      auto f = CallIt<fn, F>(none.begin(), 0, PB());
      MC_CHECK(!f.Valid(), "%s of an empty set is a valid future", kFn[fn]);
    } else if (PB()) {
      std::vector<Fut> v;
      for (int i = 0; i < n; ++i) {
        v.push_back(Maker<Fut>::Make(w, bias));
      }
      const bool ef = PB();
      Play(w, {fn, F}, [&] {
        auto out = CallIt<fn, F>(v.begin(), v.size(), ef);
        for (auto& f : v) {
          MC_CHECK(!f.Valid(), "an input is still valid after %s", kFn[fn]);
        }
        v.clear();
        return out;
      });
    } else {
      std::list<Fut> v;
      for (int i = 0; i < n; ++i) {
        v.push_back(Maker<Fut>::Make(w, bias));
      }
      Play(w, {fn, F}, [&] {
        auto out = CallIt<fn, F>(v.begin(), v.size(), false);
        v.clear();
        return out;
      });
    }
    ResetLast();
  }
}

// ------------------------------------------------------------------------------------------------ variadic forms
template <Fn fn, FailPolicy F, typename... Futs>
void Var() {
  Quiet quiet;
  {
    World w;
    const int bias = Bias();
    std::tuple<Futs...> in{Maker<Futs>::Make(w, bias)...};
    Play(w, {fn, F}, [&] {
      return std::apply(
        [](auto&... f) {
          if constexpr (fn == kAll) {
            return yaclib::WhenAll<F>(std::move(f)...);
          } else if constexpr (fn == kJoin) {
            return yaclib::Join<F>(std::move(f)...);
          } else {
            return yaclib::WhenAny<F>(std::move(f)...);
          }
        },
        in);
    });
    ResetLast();
  }
}

using FV = Future<Val, Err>;
using FOV = FutureOn<Val, Err>;
using SV = SharedFuture<Val, Err>;
using SOV = SharedFutureOn<Val, Err>;
using FU = Future<void, Err>;
using SU = SharedFuture<void, Err>;
using FD = Future<DVal, Err>;
using SD = SharedFuture<DVal, Err>;
using FM = Future<MVal, Err>;
using FDM = Future<DMVal, Err>;
using FI = Future<int, Err>;

constexpr auto kN = FailPolicy::None;
constexpr auto kF = FailPolicy::FirstFail;
constexpr auto kL = FailPolicy::LastFail;

template <Fn fn, FailPolicy F>
void IterAny() {
  switch (P(7)) {
    case 0:
      return Iter<fn, F, FV>();
    case 1:
      return Iter<fn, F, SV>();
    case 2:
      return Iter<fn, F, FU>();
    case 3:
      return Iter<fn, F, SU>();
    case 4:
      // std::is_copy_constructible<std::vector<MVal>> is true: WhenAll of move-only values does not compile
      if constexpr (fn == kAll) {
        return Iter<fn, F, FI>();
      } else {
        return Iter<fn, F, FM>();
      }
    case 5:
      return Iter<fn, F, FOV>();
    default:
      return Iter<fn, F, SOV>();
  }
}

// one value type: the output is a vector / a plain value
template <Fn fn, FailPolicy F>
void VarSame() {
  switch (P(9)) {
    case 0:
      return Var<fn, F, FV, FV>();
    case 1:
      return Var<fn, F, FV, FV, FV, FV>();
    case 2:
      return Var<fn, F, SV, SV, SV>();
    case 3:
      return Var<fn, F, FV, SV, FV, SV>();
    case 4:
      return Var<fn, F, FV>();
    case 5:
      return Var<fn, F, SV>();
    case 6:
      if constexpr (fn == kAll) {
        return Var<fn, F, FI, FI, FI>();
      } else {
        return Var<fn, F, FM, FM, FM>();
      }
    case 7:
      return Var<fn, F, FU, SU, FU>();
    default:
      return Var<fn, F, FOV, FV, SOV>();
  }
}

template <FailPolicy F>
void AllMixed() {
  switch (P(4)) {
    case 0:
      return Var<kAll, F, FD, FI, FDM>();
    case 1:
      return Var<kAll, F, FD, FU, SD, FI>();
    case 2:
      return Var<kAll, F, SD, FI>();
    default:
      return Var<kAll, F, FU, SD, SD, FDM>();
  }
}

template <FailPolicy F>
void JoinMixed() {
  switch (P(3)) {
    case 0:
      return Var<kJoin, F, FV, FU, FI>();
    case 1:
      return Var<kJoin, F, SV, FM, SU, FU>();
    default:
      return Var<kJoin, F, FM, FI, FM, FI>();
  }
}

template <FailPolicy F>
void AnyMixed() {
  switch (P(3)) {
    case 0:
      return Var<kAny, F, FV, FM, FI>();
    case 1:
      return Var<kAny, F, SV, FI, SV, FV>();
    default:
      return Var<kAny, F, FM, FD>();
  }
}

}  // namespace
