#include "pipe.hpp"

namespace pl {

// every functor instantiation lives in its own translation unit
#define PIPE_ATTACH(T)                                        \
  extern template Any Attach<T, 0, true>(Any&&, Step&);       \
  extern template Any Attach<T, 0, false>(Any&&, Step&);      \
  extern template Any Attach<T, 1, true>(Any&&, Step&);       \
  extern template Any Attach<T, 1, false>(Any&&, Step&);      \
  extern template Any Attach<T, 2, true>(Any&&, Step&);       \
  extern template Any Attach<T, 2, false>(Any&&, Step&);      \
  extern template void DetachWith<T, 0>(Any&&, Step&);        \
  extern template void DetachWith<T, 1>(Any&&, Step&);
PIPE_ATTACH(Val)
PIPE_ATTACH(void)
extern template Any RunOne<xRun>(Step&, int);
extern template Any RunOne<xRunE>(Step&, int);
extern template Any RunOne<xRunSh>(Step&, int);
extern template Any RunOne<xRunShE>(Step&, int);
extern template Any RunOne<xSchedule>(Step&, int);
extern template Any RunOne<xScheduleE>(Step&, int);

namespace {

// ------------------------------------------------------------------ sources
void Settle(Pipe& p) {
  std::visit(
    [&](auto& pr) {
      using PR = std::decay_t<decltype(pr)>;
      if constexpr (!std::is_same_v<PR, std::monostate>) {
        auto mine = std::move(pr);
        p.promise = std::monostate{};
        if constexpr (std::is_same_v<PR, Promise<Val, Err>> || std::is_same_v<PR, SharedPromise<Val, Err>>) {
          Fulfil<Val>(std::move(mine), p.out, p.drop);
        } else {
          Fulfil<void>(std::move(mine), p.out, p.drop);
        }
      }
    },
    p.promise);
}

template <typename Pr>
void Later(Pipe& p, Pr&& pr) {
  p.promise = std::move(pr);
  if (p.how == 0) {
    Settle(p);
  } else {
    p.pending.p = &p;
    g_run->bg->Submit(p.pending);
  }
}

template <typename T, typename Pr>
struct ContractFn {
  Pipe* p;
  Tok tok;
  void operator()(Pr&& pr) {
    tok.Alive();
    g_run->Invoked(p->first.id, {kVal, 0});
    if (p->first.thr) {
      throw Ex{p->first.out.v};
    }
    Later(*p, std::move(pr));
  }
};

template <typename Ret, typename T>
Ret Co(Pipe& p, [[maybe_unused]] Tok param) {
  Tok local;
  if (p.on >= 0) {
    co_await yaclib::On(Exec(p.on));
  }
  g_run->Invoked(p.first.id, {kVal, 0});
  param.Alive();
  if (p.sub != nullptr) {
    Any any = Build(*p.sub);
    Out got;
    bool failed = false;
#define PIPE_AWAIT(H, MOVE)                                            \
  if (auto* h = std::get_if<H>(&any)) {                                \
    try {                                                              \
      if constexpr (std::is_void_v<HT<H>::V>) {                        \
        co_await MOVE(*h);                                             \
        got = {kVal, 0};                                               \
      } else {                                                         \
        got = Seen(co_await MOVE(*h));                                 \
      }                                                                \
    } catch (...) {                                                    \
      got = OutOfCurrent();                                            \
      failed = true;                                                   \
    }                                                                  \
  }
#define PIPE_ID(x) (x)
    using FV = Future<Val, Err>;
    using FoV = FutureOn<Val, Err>;
    using SV = SharedFuture<Val, Err>;
    using SoV = SharedFutureOn<Val, Err>;
    using TV = Task<Val, Err>;
    using F0 = Future<void, Err>;
    using Fo0 = FutureOn<void, Err>;
    using S0 = SharedFuture<void, Err>;
    using So0 = SharedFutureOn<void, Err>;
    using T0 = Task<void, Err>;
    PIPE_AWAIT(FV, std::move)
    PIPE_AWAIT(FoV, std::move)
    PIPE_AWAIT(SV, PIPE_ID)
    PIPE_AWAIT(SoV, PIPE_ID)
    PIPE_AWAIT(TV, std::move)
    PIPE_AWAIT(F0, std::move)
    PIPE_AWAIT(Fo0, std::move)
    PIPE_AWAIT(S0, PIPE_ID)
    PIPE_AWAIT(So0, PIPE_ID)
    PIPE_AWAIT(T0, std::move)
    static_cast<void>(failed);
    local.Alive();
    param.Alive();
    g_run->Invoked(p.wait_id, got);
  }
  if (p.first.thr) {
    throw Ex{p.first.out.v};
  }
  const Out o = p.first.out;
  if (o.kind == kVal) {
    if constexpr (std::is_void_v<T>) {
      co_return {};
    } else {
      co_return Val{o.v};
    }
  } else if (o.kind == kExc) {
    co_return std::make_exception_ptr(Ex{o.v});
  } else if (o == kStop) {
    co_return yaclib::StopTag{};
  }
  co_return Err{o.v};
}

template <typename T, typename Make>
Any MakeOut(const Out& o, Make&& make) {
  if (o.kind == kVal) {
    if constexpr (std::is_void_v<T>) {
      return Any{make()};
    } else {
      return Any{make(Val{o.v})};
    }
  }
  if (o.kind == kExc) {
    return Any{make(std::make_exception_ptr(Ex{o.v}))};
  }
  if (o == kStop) {
    return Any{make(yaclib::StopTag{})};
  }
  return Any{make(Err{o.v})};
}

template <typename T>
Any Source(Pipe& p) {
  using FR = Future<T, Err>;
  switch (p.src) {
    case xMake:
      return MakeOut<T>(p.out, [](auto&&... a) {
        return yaclib::MakeFuture<T, Err>(std::forward<decltype(a)>(a)...);
      });
    case xMakeTask:
      return MakeOut<T>(p.out, [](auto&&... a) {
        return yaclib::MakeTask<T, Err>(std::forward<decltype(a)>(a)...);
      });
    case xContract: {
      auto [f, pr] = yaclib::MakeContract<T, Err>();
      Later(p, std::move(pr));
      return Any{std::move(f)};
    }
    case xContractOn: {
      auto [f, pr] = yaclib::MakeContractOn<T, Err>(Exec(p.exe));
      Later(p, std::move(pr));
      return Any{std::move(f)};
    }
    case xShContract: {
      auto [f, pr] = yaclib::MakeSharedContract<T, Err>();
      Later(p, std::move(pr));
      return Any{std::move(f)};
    }
    case xShContractOn: {
      auto [f, pr] = yaclib::MakeSharedContractOn<T, Err>(Exec(p.exe));
      Later(p, std::move(pr));
      return Any{std::move(f)};
    }
    case xAsync:
      return Any{yaclib::AsyncContract<T, Err>(ContractFn<T, Promise<T, Err>>{&p, {}})};
    case xAsyncE:
      return Any{yaclib::AsyncContract<T, Err>(Exec(p.exe), ContractFn<T, Promise<T, Err>>{&p, {}})};
    case xAsyncShE:
      return Any{yaclib::AsyncSharedContract<T, Err>(Exec(p.exe), ContractFn<T, SharedPromise<T, Err>>{&p, {}})};
    case xLazy:
      return Any{yaclib::LazyContract<T, Err>(ContractFn<T, Promise<T, Err>>{&p, {}})};
    case xLazyE:
      return Any{yaclib::LazyContract<T, Err>(Exec(p.exe), ContractFn<T, Promise<T, Err>>{&p, {}})};
    case xCo:
      return Any{Co<FR, T>(p, Tok{})};
    case xCoSh:
      return Any{Co<SharedFuture<T, Err>, T>(p, Tok{})};
    case xCoTask:
      return Any{Co<Task<T, Err>, T>(p, Tok{})};
    case xStarted: {
      Any any = Build(*p.sub);
      auto task = std::get<Task<T, Err>>(std::move(any));
      if (p.exe >= 0) {
        return Any{std::move(task).ToFuture(Exec(p.exe))};
      }
      return Any{std::move(task).ToFuture()};
    }
    case xRun:
      return RunOne<xRun>(p.first, p.exe);
    case xRunE:
      return RunOne<xRunE>(p.first, p.exe);
    case xRunSh:
      return RunOne<xRunSh>(p.first, p.exe);
    case xRunShE:
      return RunOne<xRunShE>(p.first, p.exe);
    case xSchedule:
      return RunOne<xSchedule>(p.first, p.exe);
    case xScheduleE:
      return RunOne<xScheduleE>(p.first, p.exe);
    default:
      mc::Fail("HARNESS", "unknown source");
  }
}

template <typename T>
Any Conversion(Any&& any, Item& it) {
  auto unique = [&](auto&& f) -> Any {
    if (auto* h = std::get_if<Future<T, Err>>(&any)) {
      return f(std::move(*h));
    }
    return f(std::get<FutureOn<T, Err>>(std::move(any)));
  };
  auto shared = [&](auto&& f) -> Any {
    if (auto* h = std::get_if<SharedFuture<T, Err>>(&any)) {
      return f(*h);
    }
    return f(std::get<SharedFutureOn<T, Err>>(any));
  };
  switch (it.conv) {
    case cOff:
      if (auto* h = std::get_if<FutureOn<T, Err>>(&any)) {
        return Any{std::move(*h).On(nullptr)};
      }
      return Any{std::get<SharedFutureOn<T, Err>>(std::move(any)).On(nullptr)};
    case cSplit:
      return unique([](auto&& h) {
        return Any{yaclib::Split(std::move(h))};
      });
    case cShare:
      return shared([](auto& h) {
        return Any{yaclib::Share(h)};
      });
    case cShareE:
      return shared([&](auto& h) {
        return Any{yaclib::Share(h, Exec(it.exe))};
      });
    case cConnect: {  // into a new unique contract
      auto [f, pr] = yaclib::MakeContractOn<T, Err>(Exec(it.exe));
      if (std::holds_alternative<Future<T, Err>>(any) || std::holds_alternative<FutureOn<T, Err>>(any)) {
        unique([&](auto&& h) {
          yaclib::Connect(std::move(h), std::move(pr));
          return Any{};
        });
      } else {
        shared([&](auto& h) {
          yaclib::Connect(h, std::move(pr));
          return Any{};
        });
      }
      return Any{std::move(f)};
    }
    default: {  // into a new shared contract
      auto [f, pr] = yaclib::MakeSharedContractOn<T, Err>(Exec(it.exe));
      if (std::holds_alternative<Future<T, Err>>(any) || std::holds_alternative<FutureOn<T, Err>>(any)) {
        unique([&](auto&& h) {
          yaclib::Connect(std::move(h), std::move(pr));
          return Any{};
        });
      } else {
        shared([&](auto& h) {
          yaclib::Connect(h, std::move(pr));
          return Any{};
        });
      }
      return Any{std::move(f)};
    }
  }
}

template <typename T>
void Keep(Pipe& p, const Any& any) {
  if (auto* h = std::get_if<SharedFuture<T, Err>>(&any)) {
    p.kept = *h;
  } else if (auto* h = std::get_if<SharedFutureOn<T, Err>>(&any)) {
    auto copy = *h;
    p.kept = std::move(copy).On(nullptr);
  }
}

void MaybeKeep(Pipe& p, const Any& any) {
  if (p.keep && p.kept.index() == 0) {
    Keep<Val>(p, any);
    Keep<void>(p, any);
  }
}

template <typename T>
Any OneStep(Any&& any, Step& st, int group) {
  const bool call = st.form != fInline;
  switch (group) {
    case 0:
      return call ? Attach<T, 0, true>(std::move(any), st) : Attach<T, 0, false>(std::move(any), st);
    case 1:
      return call ? Attach<T, 1, true>(std::move(any), st) : Attach<T, 1, false>(std::move(any), st);
    default:
      return call ? Attach<T, 2, true>(std::move(any), st) : Attach<T, 2, false>(std::move(any), st);
  }
}

int KindOf(const Any& a) {
  return (static_cast<int>(a.index()) - 1) % 5;
}
bool VoidOf(const Any& a) {
  return a.index() > 5;
}

}  // namespace

void Pending::Call() noexcept {
  Settle(*p);
}

Any Build(Pipe& p) {
  Any any = p.src_void ? Source<void>(p) : Source<Val>(p);
  MaybeKeep(p, any);
  for (auto& it : p.items) {
    const bool v = VoidOf(any);
    if (it.is_conv) {
      Any next = v ? Conversion<void>(std::move(any), it) : Conversion<Val>(std::move(any), it);
      any = std::move(next);
    } else {
      const int k = KindOf(any);
      const int group = k == kTask ? 2 : k >= kSh ? 1 : 0;
      Any next = v ? OneStep<void>(std::move(any), it.step, group) : OneStep<Val>(std::move(any), it.step, group);
      any = std::move(next);
    }
    MaybeKeep(p, any);
  }
  if (KindOf(any) != p.kind || VoidOf(any) != p.is_void) {
    mc::Fail("HARNESS", "pipeline %d is a %s, expected a %s", p.id, kKindName[KindOf(any)], kKindName[p.kind]);
  }
  return any;
}

// ------------------------------------------------------------------ consumers
namespace {

void Final(const Out& o) {
  MC_CHECK_TAG("HARNESS", Inc(g_run->finals) == 1, "two outcomes");
  g_run->final = o;
}

template <typename H>
yaclib::Future<void, Err> FinCo(H h, bool keep, [[maybe_unused]] bool look) {
  Out got;
  using V = typename HT<H>::V;
  constexpr int kKind = HT<H>::kKind;
  try {
    if constexpr (kKind == kTask) {
      if (keep) {
        co_await yaclib::Await(h);
        MC_READY(h.Ready(), "not Ready after co_await Await(task)");
        if (look) {
          got = OutOf(std::as_const(h).Touch());
        } else {
          got = OutOf(std::move(h).Touch());
        }
        Final(got);
        co_return {};
      }
    }
    if constexpr (std::is_void_v<V>) {
      if constexpr (kKind == kSh || kKind == kShOn) {
        co_await h;
      } else {
        co_await std::move(h);
      }
      got = {kVal, 0};
    } else {
      if constexpr (kKind == kSh || kKind == kShOn) {
        got = Seen(co_await h);
      } else {
        got = Seen(co_await std::move(h));
      }
    }
  } catch (...) {
    got = OutOfCurrent();
  }
  Final(got);
  co_return {};
}

template <typename H>
void ConsumeH(H&& h, Fin& fin) {
  constexpr int kKind = HT<std::decay_t<H>>::kKind;
  switch (fin.how) {
    case nGet:
      if constexpr (kKind == kSh || kKind == kShOn) {
        if (fin.step.lvalue) {
          Final(OutOf(std::as_const(h).Get()));
          return;
        }
      }
      Final(OutOf(std::move(h).Get()));
      return;
    case nWaitTouch:
      if constexpr (kKind != kTask) {
        yaclib::Wait(h);
        MC_READY(h.Ready(), "not Ready after Wait");
        if (fin.step.lvalue) {
          Final(OutOf(std::as_const(h).Touch()));
        } else {
          Final(OutOf(std::move(h).Touch()));
        }
      }
      return;
    case nDrop: {
      auto gone = std::move(h);
      return;
    }
    case nDetach:
      if constexpr (kKind == kTask) {
        if (fin.start_exe >= 0) {
          std::move(h).Detach(Exec(fin.start_exe));
          return;
        }
      }
      std::move(h).Detach();
      return;
    case nCancel:
      if constexpr (kKind == kTask) {
        std::move(h).Cancel();
      }
      return;
    case nCoAwait:
    case nCoAwaitKeep: {
      auto f = FinCo(std::move(h), fin.how == nCoAwaitKeep, fin.step.lvalue);
      if (g_run->pump != nullptr) {
        g_run->pump();
      }
      auto r = std::move(f).Get();
      MC_CHECK(r.State() == yaclib::ResultState::Value, "the awaiting coroutine failed");
      return;
    }
    default:
      mc::Fail("HARNESS", "consume");
  }
}

}  // namespace

void Consume(Any&& any, Fin& fin, bool is_void) {
  if (KindOf(any) == kTask && fin.start) {
    auto start = [&](auto&& t) {
      return fin.start_exe >= 0 ? Any{std::move(t).ToFuture(Exec(fin.start_exe))} : Any{std::move(t).ToFuture()};
    };
    Any next = is_void ? start(std::get<Task<void, Err>>(std::move(any))) : start(std::get<Task<Val, Err>>(std::move(any)));
    any = std::move(next);
    if (g_run->pump != nullptr) {
      g_run->pump();
    }
  }
  if (fin.how == nDetachF) {
    const int k = KindOf(any);
    if (k >= kSh) {
      is_void ? DetachWith<void, 1>(std::move(any), fin.step) : DetachWith<Val, 1>(std::move(any), fin.step);
    } else {
      is_void ? DetachWith<void, 0>(std::move(any), fin.step) : DetachWith<Val, 0>(std::move(any), fin.step);
    }
    return;
  }
  std::visit(
    [&](auto&& h) {
      if constexpr (!std::is_same_v<std::decay_t<decltype(h)>, std::monostate>) {
        auto mine = std::move(h);
        ConsumeH(std::move(mine), fin);
      }
    },
    std::move(any));
}

// ------------------------------------------------------------------ generation
namespace {

struct Gen {
  Program& pr;
  const GenOpts& o;

  int Exe() {
    const u32 r = P(16);
    if (r == 15) {
      return kStopE;
    }
    if (r == 14) {
      return kInl;
    }
    return 2 + static_cast<int>(P(static_cast<u32>(o.exes)));
  }
  int Id() {
    return ++pr.ids;
  }
  Pipe* New() {
    auto& p = pr.pool.emplace_back();
    p.id = static_cast<int>(pr.pool.size());
    return &p;
  }

  // what the functor does; s.sig and s.to_void are set
  void Behaviour(Step& s, bool from_void, bool shared, int depth) {
    s.id = Id();
    const int payload = s.id * 10;
    s.thr = P(5) == 4;
    u32 r = P(8);
    if (r >= 3 && depth <= 0) {
      r %= 3;
    }
    if (r < 2) {
      s.ret = rPlain;
      s.out = {kVal, payload};
    } else if (r == 2) {
      s.ret = rRes;
      s.out = GenOut(payload);
      s.echo = from_void == s.to_void && (s.sig == sRes || s.sig == sResC || s.sig == sResR) && P(3) == 2;
    } else {
      s.out = {kVal, payload};
      s.inner = Make(r >= 6, depth - 1, s.to_void ? 1 : 0);
      auto& in = *s.inner;
      if (!Allowed(from_void, shared, s.sig, s.to_void, rFut + in.kind)) {
        // not in the compiled menu: make it a plain Future
        Item it;
        it.is_conv = true;
        it.conv = in.kind == kFutOn ? cOff : cShare;
        in.items.push_back(it);
        in.kind = kFut;
      }
      s.ret = rFut + in.kind;
    }
    if (s.thr) {
      s.out = {kExc, payload};
    }
  }

  int PickSig(bool from_void, bool shared, bool to_void) {
    static constexpr int kV[] = {sRes, sV, sErr, sExc, sResC, sVC, sResR, sVR};
    static constexpr int k0[] = {sRes, sNone, sErr, sExc, sResC, sResR};
    const int s = from_void ? k0[P(6)] : kV[P(8)];
    return Allowed(from_void, shared, s, to_void, rPlain) ? s : static_cast<int>(sRes);
  }

  void AddStep(Pipe& p, int depth, int force_void) {
    Item it;
    auto& s = it.step;
    const int k = p.kind;
    const bool shared = k == kSh || k == kShOn;
    s.to_void = force_void >= 0 ? force_void != 0 : (P(4) == 3 ? !p.is_void : p.is_void);
    s.sig = PickSig(p.is_void, shared, s.to_void);
    // the executor of the previous core can not be known
    const bool inherit = (k == kFutOn || k == kShOn || k == kTask) && !attr_unknown;
    const u32 f = P(inherit ? 4 : 3);
    s.form = f == 0 ? fInline : f == 3 ? fThen : fThenE;
    if (f == 2 && inherit) {
      s.form = fThen;
    }
    s.exe = Exe();
    attr_unknown = attr_unknown && s.form != fThenE;
    Behaviour(s, p.is_void, shared, depth);
    s.lvalue = P(3) == 2;
    p.is_void = s.to_void;
    if (k == kTask) {
      p.kind = kTask;
    } else if (s.form == fInline) {
      p.kind = k == kSh ? kFut : k == kShOn ? kFutOn : k;
    } else {
      p.kind = kFutOn;
    }
    p.items.push_back(it);
    --pr.budget;
  }

  void AddConv(Pipe& p) {
    Item it;
    it.is_conv = true;
    it.exe = Exe();
    const bool shared = p.kind == kSh || p.kind == kShOn;
    const bool on = p.kind == kFutOn || p.kind == kShOn;
    u32 c = P(5);
    if (c == 0 && !on) {
      c = 1;
    }
    if (c == 0) {
      it.conv = cOff;
      p.kind = p.kind == kFutOn ? kFut : kSh;
    } else if (c <= 2) {
      if (shared) {
        it.conv = c == 1 ? cShare : cShareE;
        p.kind = c == 1 ? kFut : kFutOn;
      } else {
        it.conv = cSplit;
        p.kind = kSh;
      }
    } else {
      it.conv = c == 3 ? cConnect : cConnectSh;
      p.kind = c == 3 ? kFutOn : kShOn;
    }
    p.items.push_back(it);
  }

  bool attr_unknown = false;

  Pipe* Make(bool lazy, int depth, int want_void) {
    const bool saved = attr_unknown;
    attr_unknown = false;
    Pipe& p = *New();
    p.src_void = P(3) == 2;
    if (P(2) == 0 && want_void >= 0) {
      p.src_void = want_void != 0;
    }
    p.exe = Exe();
    p.how = P(2);
    p.keep = P(3) == 2;
    u32 s;
    if (lazy) {
      static constexpr int kLazyS[] = {xMakeTask, xSchedule, xScheduleE, xLazy, xLazyE, xCoTask};
      s = kLazyS[P(o.no_coro ? 5 : 6)];
    } else {
      static constexpr int kEager[] = {xMake,   xContract,     xContractOn, xRun,    xRunE,     xAsync, xAsyncE, xStarted,
                                       xShContract, xShContractOn, xRunSh,    xRunShE, xAsyncShE, xCo,    xCoSh};
      s = kEager[P(o.no_coro ? 13 : 15)];
      if (s == xStarted && depth <= 0) {
        s = xRunE;
      }
    }
    p.src = static_cast<int>(s);
    p.out = GenOut(p.id * 1000);
    p.drop = PB();
    p.first.exe = p.exe;
    p.is_void = p.src_void;
    p.kind = lazy ? kTask : kFut;
    switch (s) {
      case xMake:
      case xContract:
      case xMakeTask:
        break;
      case xContractOn:
        p.kind = kFutOn;
        break;
      case xShContract:
        p.kind = kSh;
        break;
      case xShContractOn:
        p.kind = kShOn;
        break;
      case xRun:
      case xRunE:
      case xRunSh:
      case xRunShE:
      case xSchedule:
      case xScheduleE: {
        p.kind = s == xRunE ? kFutOn : s == xRunSh ? kSh : s == xRunShE ? kShOn : p.kind;
        p.first.sig = P(2) == 0 ? sNone : sRes;
        p.first.to_void = p.src_void;
        --pr.budget;
        // RunOne has no Result signature for most asynchronous functors
        const int d = p.first.sig == sNone ? depth : 0;
        Behaviour(p.first, true, false, d);
        break;
      }
      case xAsync:
      case xAsyncE:
      case xAsyncShE:
      case xLazy:
      case xLazyE:
        p.kind = s == xAsyncE ? kFutOn : s == xAsyncShE ? kShOn : p.kind;
        p.first.id = Id();
        p.first.thr = P(5) == 4;
        p.first.out = {kExc, p.first.id * 10};
        --pr.budget;
        break;
      case xStarted:
        p.sub = Make(true, depth - 1, p.src_void ? 1 : 0);
        p.src_void = p.is_void = p.sub->is_void;
        p.exe = P(2) == 0 ? -1 : Exe();
        p.kind = p.exe >= 0 ? kFutOn : kFut;
        break;
      default:  // coroutines
        p.kind = s == xCoSh ? kSh : p.kind;
        p.first.id = Id();
        p.first.thr = P(5) == 4;
        p.first.out = GenOut(p.first.id * 10);
        if (p.first.thr) {
          p.first.out = {kExc, p.first.id * 10};
        }
        p.on = P(2) == 0 ? -1 : Exe();
        attr_unknown = s == xCoTask && saved && p.on < 0;
        if (depth > 0 && P(2) != 0) {
          p.sub = Make(P(2) != 0, depth - 1, -1);
          p.wait_id = Id();
        }
        --pr.budget;
        attr_unknown = attr_unknown || p.sub != nullptr;
        break;
    }
    if (s == xStarted) {
      // whether the executor is known: only through a chain that names one
      attr_unknown = StartedUnknown(*p.sub);
    }
    const u32 n = P(static_cast<u32>(depth == o.depth ? o.max_steps + 1 : 3));
    for (u32 i = 0; i < n && pr.budget > 0; ++i) {
      if (!lazy && P(5) == 4) {
        AddConv(p);
        attr_unknown = false;
      } else {
        AddStep(p, depth, -1);
      }
    }
    if (want_void >= 0 && p.is_void != (want_void != 0)) {
      AddStep(p, 0, want_void);
    }
    attr_unknown = saved;
    return &p;
  }

  static bool StartedUnknown(const Pipe& p) {
    bool unk = p.src == xCoTask && p.sub != nullptr;
    for (auto& it : p.items) {
      if (!it.is_conv && it.step.form == fThenE) {
        unk = false;
      }
    }
    return unk;
  }
};

void Put(std::string& d, const Pipe& p);

void PutStep(std::string& d, const Step& s) {
  d += "#" + std::to_string(s.id) + "(" + kSigName[s.sig] + ")->";
  if (s.thr) {
    d += "throw";
  } else if (s.inner != nullptr) {
    d += kRetName[s.ret];
    d += "{";
    Put(d, *s.inner);
    d += "}";
  } else {
    d += kRetName[s.ret];
    d += s.echo ? " same" : " " + Str(s.out);
  }
  d += s.to_void ? " void" : "";
}

void Put(std::string& d, const Pipe& p) {
  d += kSrcName[p.src];
  d += p.src_void ? "<void>" : "";
  switch (p.src) {
    case xMake:
    case xMakeTask:
      d += " " + Str(p.out);
      break;
    case xContract:
    case xShContract:
    case xContractOn:
    case xShContractOn:
      d += " " + Str(p.out) + (p.how != 0 ? " later" : "");
      break;
    case xAsync:
    case xAsyncE:
    case xAsyncShE:
    case xLazy:
    case xLazyE:
      d += " #" + std::to_string(p.first.id) + (p.first.thr ? " throw" : " " + Str(p.out)) + (p.how != 0 ? " later" : "");
      break;
    case xStarted:
      d += "{";
      Put(d, *p.sub);
      d += "}";
      break;
    case xCo:
    case xCoSh:
    case xCoTask:
      d += " #" + std::to_string(p.first.id);
      d += p.on >= 0 ? " On(e" + std::to_string(p.on) + ")" : "";
      if (p.sub != nullptr) {
        d += " co_await{";
        Put(d, *p.sub);
        d += "}#" + std::to_string(p.wait_id);
      }
      d += p.first.thr ? " throw" : " " + Str(p.first.out);
      break;
    default:
      d += " ";
      PutStep(d, p.first);
  }
  if (p.src == xContractOn || p.src == xRunE || p.src == xAsyncE || p.src == xShContractOn || p.src == xRunShE || p.src == xAsyncShE ||
      p.src == xScheduleE || p.src == xLazyE || (p.src == xStarted && p.exe >= 0)) {
    d += " @e" + std::to_string(p.exe);
  }
  for (auto& it : p.items) {
    if (it.is_conv) {
      d += std::string(" .") + kConvName[it.conv];
      if (it.conv >= cShareE) {
        d += " e" + std::to_string(it.exe);
      }
    } else {
      d += it.step.form == fThenE ? " .Then(e" + std::to_string(it.step.exe) + ")" : it.step.form == fThen ? " .Then" : " .ThenInline";
      PutStep(d, it.step);
    }
  }
}

}  // namespace

void Generate(Program& pr, const GenOpts& o) {
  Gen g{pr, o};
  pr.top = g.Make(o.lazy, o.depth, -1);
  GenerateFin(pr, o);
}

void GenerateFin(Program& pr, const GenOpts& o) {
  Gen g{pr, o};
  auto& fin = pr.fin;
  int kind = pr.top->kind;
  bool unknown = Gen::StartedUnknown(*pr.top);
  if (pr.top->src == xStarted) {
    unknown = unknown || Gen::StartedUnknown(*pr.top->sub);
  }
  fin.step.lvalue = PB();
  if (kind == kTask) {
    static constexpr int kHow[] = {nGet, nDetach, nDetach, nCoAwait, nCoAwaitKeep, nDrop, nCancel, nGet, nGet, nGet};
    const u32 r = P(o.no_coro ? 10 : 10);
    int how = kHow[r];
    if (o.no_coro && (how == nCoAwait || how == nCoAwaitKeep)) {
      how = nGet;
    }
    fin.how = how;
    fin.start_exe = P(2) == 0 ? -1 : g.Exe();
    if (r >= 7) {
      fin.start = true;
      kind = fin.start_exe >= 0 ? kFutOn : kFut;
    } else {
      fin.start = how == nGet && o.single;
      if (fin.start) {
        kind = fin.start_exe >= 0 ? kFutOn : kFut;
      }
      if (how != nDetach) {
        fin.start_exe = fin.start ? fin.start_exe : -1;
      }
      return;
    }
  }
  static constexpr int kHow[] = {nGet, nWaitTouch, nDrop, nDetach, nDetachF, nDetachF, nCoAwait};
  fin.how = kHow[P(o.no_coro ? 6 : 7)];
  auto& s = fin.step;
  if (fin.how == nDetachF) {
    const bool shared = kind == kSh || kind == kShOn;
    const bool v = pr.top->is_void;
    static constexpr int kV[] = {sRes, sV, sErr, sExc, sResR, sVR};
    static constexpr int k0[] = {sRes, sNone, sErr, sExc, sResR};
    s.sig = v ? k0[P(5)] : kV[P(6)];
    if (shared && (s.sig == sResR || s.sig == sVR)) {
      s.sig = sRes;
    }
    s.id = ++pr.ids;
    s.ret = rPlain;
    s.to_void = true;
    s.thr = P(4) == 3;
    s.out = {kExc, s.id * 10};
    const bool on = (kind == kFutOn || kind == kShOn) && !unknown;
    const u32 f = P(3);
    s.form = f == 0 ? fInline : f == 1 ? fThenE : on ? fThen : fInline;
    if (kind == kShOn && s.form == fThenE) {
      s.form = on ? fThen : fInline;
    }
    s.exe = g.Exe();
  }
}

std::string Text(const Program& pr) {
  static const char* const kFin[] = {"Get", "Wait+Touch", "drop", "Detach", "Detach(f)", "co_await", "Cancel", "co_await Await + Touch"};
  std::string d;
  Put(d, *pr.top);
  if (pr.fin.start) {
    d += " .ToFuture(" + (pr.fin.start_exe >= 0 ? "e" + std::to_string(pr.fin.start_exe) : std::string()) + ")";
  }
  d += std::string(" ; ") + kFin[pr.fin.how];
  if (!pr.fin.start && pr.fin.start_exe >= 0) {
    d += " e" + std::to_string(pr.fin.start_exe);
  }
  if (pr.fin.how == nDetachF) {
    d += pr.fin.step.form == fInline ? " inline " : pr.fin.step.form == fThen ? " " : " e" + std::to_string(pr.fin.step.exe) + " ";
    PutStep(d, pr.fin.step);
  }
  return d;
}

// ------------------------------------------------------------------ sequential reading
namespace {

struct Interp {
  Reading& r;
  struct St {
    Out out;
    int attr = kInl;
  };

  // the job is run (on e) or refused
  bool Submit(int e) {
    if (e == kInl) {
      return true;
    }
    if (e == kStopE) {
      ++r.refused;
      return false;
    }
    const bool ok = r.acc(e, r.submits[e]++);
    r.refused += !ok;
    return ok;
  }
  static int Where(int e, bool ok) {
    return ok && e > kStopE ? e : kAnywhere;
  }

  Out Apply(Step& s, const Out& in, int where, int attr) {
    bool runs;
    switch (s.sig) {
      case sRes:
      case sResC:
      case sResR:
        runs = true;
        break;
      case sErr:
        runs = in.kind == kErr;
        break;
      case sExc:
        runs = in.kind == kExc;
        break;
      default:
        runs = in.kind == kVal;
    }
    if (!runs) {
      return in;
    }
    Out seen = in;
    if (s.sig == sNone) {
      seen = {kVal, 0};
    }
    r.events.push_back({s.id, seen, where});
    if (s.thr) {
      return {kExc, s.out.v};
    }
    auto norm = [&](Out o) {
      if (o.kind == kVal && s.to_void) {
        o.v = 0;
      }
      return o;
    };
    if (s.inner != nullptr) {
      return Eval(*s.inner, kStepStart, attr).out;
    }
    if (s.ret == rRes && s.echo) {
      return in;
    }
    return norm(s.out);
  }

  // how the head of a Task gets started; >= 0: by ToFuture(e) / Detach(e)
  static constexpr int kPlainStart = -1;
  static constexpr int kStepStart = -2;

  St Head(Pipe& p, int start, int outer_attr) {
    auto norm = [&](Out o) {
      if (o.kind == kVal && p.src_void) {
        o.v = 0;
      }
      return o;
    };
    ++r.allocs;
    St st;
    switch (p.src) {
      case xMake:
        return {norm(p.out), kInl};
      case xContract:
      case xShContract:
        return {norm(p.out), kInl};
      case xContractOn:
      case xShContractOn:
        return {norm(p.out), p.exe};
      case xStarted:
        --r.allocs;
        return Eval(*p.sub, p.exe >= 0 ? p.exe : kPlainStart, kInl);
      case xMakeTask: {
        if (start == kStepStart) {
          return {norm(p.out), kInl};
        }
        const int e = start >= 0 ? start : kInl;
        const bool ok = Submit(e);
        return {ok ? norm(p.out) : kStop, e};
      }
      case xCo:
      case xCoSh:
      case xCoTask: {
        int e = kInl;
        bool ok = true;
        int where = kAnywhere;
        if (p.src == xCoTask) {
          if (start == kStepStart) {
            e = outer_attr;
          } else {
            e = start >= 0 ? start : kInl;
            ok = Submit(e);
            where = Where(e, ok);
          }
        }
        if (ok && p.on >= 0) {
          e = p.on;
          ok = Submit(e);
          where = Where(e, ok);
        }
        if (!ok) {
          return {kStop, e};
        }
        r.events.push_back({p.first.id, {kVal, 0}, where});
        if (p.sub != nullptr) {
          const auto got = Eval(*p.sub, kStepStart, e);
          r.events.push_back({p.wait_id, got.out, kAnywhere});
        }
        return {p.first.thr ? Out{kExc, p.first.out.v} : norm(p.first.out), e};
      }
      default: {
        int e = p.src == xRun || p.src == xAsync || p.src == xRunSh || p.src == xSchedule || p.src == xLazy ? kInl : p.exe;
        if (start >= 0 && (p.src == xSchedule || p.src == xScheduleE || p.src == xLazy || p.src == xLazyE)) {
          e = start;
        }
        const bool ok = Submit(e);
        const int where = Where(e, ok);
        const bool contract = p.src == xAsync || p.src == xAsyncE || p.src == xAsyncShE || p.src == xLazy || p.src == xLazyE;
        if (!contract) {
          return {Apply(p.first, ok ? Out{kVal, 0} : kStop, where, e), e};
        }
        if (!ok) {
          return {kStop, e};
        }
        r.events.push_back({p.first.id, {kVal, 0}, where});
        return {p.first.thr ? Out{kExc, p.first.out.v} : norm(p.out), e};
      }
    }
  }

  St Eval(Pipe& p, int start, int outer_attr) {
    St st = Head(p, start, outer_attr);
    int kind = HeadKind(p);
    bool kept = false;
    auto keep = [&] {
      if (p.keep && !kept && (kind == kSh || kind == kShOn)) {
        kept = true;
        r.kept.emplace_back(&p, st.out);
      }
    };
    keep();
    for (auto& it : p.items) {
      ++r.allocs;
      if (it.is_conv) {
        ++r.convs;
        switch (it.conv) {
          case cOff:
            --r.allocs;
            kind = kind == kFutOn ? kFut : kSh;
            --r.convs;
            break;
          case cSplit:
            kind = kSh;
            st.attr = kInl;
            break;
          case cShare:
            kind = kFut;
            st.attr = kInl;
            break;
          case cShareE:
          case cConnect:
            kind = kFutOn;
            st.attr = it.exe;
            break;
          default:
            kind = kShOn;
            st.attr = it.exe;
        }
      } else {
        auto& s = it.step;
        if (s.form == fInline) {
          st.out = Apply(s, st.out, kAnywhere, st.attr);
          kind = kind == kSh ? kFut : kind == kShOn ? kFutOn : kind;
        } else {
          const int e = s.form == fThenE ? s.exe : st.attr;
          const bool ok = Submit(e);
          st.attr = e;
          st.out = Apply(s, ok ? st.out : kStop, Where(e, ok), e);
          kind = kind == kTask ? kTask : kFutOn;
        }
      }
      keep();
    }
    return st;
  }

  static int HeadKind(const Pipe& p) {
    switch (p.src) {
      case xContractOn:
      case xRunE:
      case xAsyncE:
        return kFutOn;
      case xShContract:
      case xRunSh:
      case xCoSh:
        return kSh;
      case xShContractOn:
      case xRunShE:
      case xAsyncShE:
        return kShOn;
      case xStarted:
        return p.exe >= 0 ? kFutOn : kFut;
      case xMake:
      case xContract:
      case xRun:
      case xAsync:
      case xCo:
        return kFut;
      default:
        return kTask;
    }
  }
};

}  // namespace

void Read(Program& pr, Reading& r) {
  Interp in{r};
  auto& fin = pr.fin;
  int start = Interp::kPlainStart;
  if (pr.top->kind == kTask) {
    if (fin.how == nDrop || fin.how == nCancel) {
      if (!fin.start) {
        start = kStopE;
      }
    }
    if (fin.start_exe >= 0) {
      start = fin.start_exe;
    }
    if (!fin.start && (fin.how == nCoAwait || fin.how == nCoAwaitKeep)) {
      start = Interp::kStepStart;
    }
  }
  auto st = in.Eval(*pr.top, start, kInl);
  switch (fin.how) {
    case nGet:
    case nWaitTouch:
      r.has_out = true;
      r.out = st.out;
      break;
    case nCoAwait:
    case nCoAwaitKeep:
      ++r.allocs;
      r.has_out = true;
      r.out = st.out;
      break;
    case nDetachF: {
      ++r.allocs;
      auto& s = fin.step;
      if (s.form == fInline) {
        in.Apply(s, st.out, kAnywhere, st.attr);
      } else {
        const int e = s.form == fThenE ? s.exe : st.attr;
        const bool ok = in.Submit(e);
        in.Apply(s, ok ? st.out : kStop, Interp::Where(e, ok), e);
      }
      break;
    }
    default:
      break;
  }
}

void Compare(Program& pr, Reading& r, Run& run) {
  const int n = Ld(run.n);
  const int want = static_cast<int>(r.events.size());
  for (int i = 0; i < n && i < want; ++i) {
    const auto& e = r.events[i];
    const int id = Ld(run.rec[i].id);
    const Out got{Ld(run.rec[i].kind), Ld(run.rec[i].v)};
    MC_CHECK(id == e.id, "callback number %d to run was step %d, expected step %d", i, id, e.id);
    MC_CHECK(got == e.in, "step %d was invoked with %s, expected %s", id, Str(got).c_str(), Str(e.in).c_str());
  }
  MC_CHECK(n >= want, "step %d was not invoked (%d of %d callbacks ran)", r.events[n].id, n, want);
  MC_CHECK(n <= want, "step %d was invoked, it should not (%d callbacks ran, expected %d)", Ld(run.rec[want].id), n, want);
  if (r.has_out) {
    MC_CHECK(Ld(run.finals) == 1, "the pipeline did not complete");
    MC_CHECK(run.final == r.out, "the result is %s, expected %s", Str(run.final).c_str(), Str(r.out).c_str());
  }
  for (int i = 0; i < want; ++i) {
    const auto& e = r.events[i];
    const int w = Ld(run.rec[i].where);
    MC_CHECK_TAG("C05", e.where == kAnywhere || w == e.where, "step %d ran on executor %d, expected executor %d", e.id, w, e.where);
  }
}

void MakeEager(Program& pr) {
  auto& p = *pr.top;
  int attr = kInl;
  p.kind = kFut;
  switch (p.src) {
    case xMakeTask:
      p.src = xMake;
      break;
    case xSchedule:
      p.src = xRun;
      break;
    case xScheduleE:
      p.src = xRunE;
      p.kind = kFutOn;
      attr = p.exe;
      break;
    case xLazy:
      p.src = xAsync;
      break;
    case xLazyE:
      p.src = xAsyncE;
      p.kind = kFutOn;
      attr = p.exe;
      break;
    default:
      p.src = xCo;
      attr = p.on >= 0 ? p.on : kInl;
  }
  for (auto& it : p.items) {
    auto& s = it.step;
    if (s.form == fThen && p.kind == kFut) {
      s.form = fThenE;
      s.exe = attr;
    }
    if (s.form != fInline) {
      p.kind = kFutOn;
      attr = s.form == fThenE ? s.exe : attr;
    }
  }
  pr.fin = Fin{};
}

void CheckKept(Program& pr, Reading& r) {
  for (auto& [p, out] : r.kept) {
    std::visit(
      [&](auto& h) {
        if constexpr (!std::is_same_v<std::decay_t<decltype(h)>, std::monostate>) {
          MC_READY(h.Ready(), "a SharedFuture of a completed pipeline is not Ready");
          const Out got = OutOf(std::as_const(h).Get());
          MC_CHECK(got == out, "a kept copy of a SharedFuture holds %s, expected %s", Str(got).c_str(), Str(out).c_str());
        }
      },
      p->kept);
  }
  for (auto& p : pr.pool) {
    p.kept = std::monostate{};
  }
}

}  // namespace pl
