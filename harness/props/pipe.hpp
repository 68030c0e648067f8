// Generated pipelines: abstract programs, their execution against the real library and their sequential reading
#pragma once

#include "coro.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/split.hpp>

#include <array>
#include <deque>
#include <functional>
#include <optional>
#include <type_traits>
#include <variant>

namespace pl {

using namespace h;
using mc::u32;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::IExecutor;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;
using yaclib::SharedPromise;
using yaclib::Task;

// ------------------------------------------------------------------ vocabulary
enum Kind5 : int { kFut, kFutOn, kSh, kShOn, kTask };
enum Form : int { fThenE, fThen, fInline };
enum Sig : int { sRes, sResC, sResR, sV, sVC, sVR, sNone, sErr, sExc };
enum RetK : int { rPlain, rRes, rFut, rFutOn, rSh, rShOn, rTask };
enum SrcK : int {
  xMake,
  xContract,
  xContractOn,
  xRun,
  xRunE,
  xAsync,
  xAsyncE,
  xCo,
  xStarted,  // ToFuture() / ToFuture(e) of a Task
  xShContract,
  xShContractOn,
  xRunSh,
  xRunShE,
  xAsyncShE,
  xCoSh,
  xMakeTask,
  xSchedule,
  xScheduleE,
  xLazy,
  xLazyE,
  xCoTask,
};
enum Conv : int { cOff, cSplit, cShare, cShareE, cConnect, cConnectSh };

inline const char* const kKindName[] = {"Future", "FutureOn", "SharedFuture", "SharedFutureOn", "Task"};
inline const char* const kSigName[] = {"Result", "const Result&", "Result&&", "V", "const V&", "V&&", "", "E", "exception_ptr"};
inline const char* const kRetName[] = {"value", "Result", "Future", "FutureOn", "SharedFuture", "SharedFutureOn", "Task"};
inline const char* const kSrcName[] = {"Make",      "Contract",   "ContractOn", "Run",       "Run(e)",      "AsyncContract", "AsyncContract(e)",
                                       "co Future", "ToFuture",   "ShContract", "ShContractOn", "RunShared", "RunShared(e)",  "AsyncSharedContract(e)",
                                       "co Shared", "MakeTask",   "Schedule",   "Schedule(e)", "LazyContract", "LazyContract(e)", "co Task"};
inline const char* const kConvName[] = {"On(nullptr)", "Split", "Share", "Share(e)", "Connect", "Connect(shared)"};

constexpr int kInl = 0;    // MakeInline()
constexpr int kStopE = 1;  // MakeInline(StopTag)
constexpr int kMaxExe = 8;
constexpr int kAnywhere = -1;

template <typename T>
using H5 = std::tuple<Future<T, Err>, FutureOn<T, Err>, SharedFuture<T, Err>, SharedFutureOn<T, Err>, Task<T, Err>>;
using Any = std::variant<std::monostate, Future<Val, Err>, FutureOn<Val, Err>, SharedFuture<Val, Err>, SharedFutureOn<Val, Err>, Task<Val, Err>,
                         Future<void, Err>, FutureOn<void, Err>, SharedFuture<void, Err>, SharedFutureOn<void, Err>, Task<void, Err>>;

template <typename H>
struct HT;
template <typename T>
struct HT<Future<T, Err>> {
  using V = T;
  static constexpr int kKind = kFut;
};
template <typename T>
struct HT<FutureOn<T, Err>> {
  using V = T;
  static constexpr int kKind = kFutOn;
};
template <typename T>
struct HT<SharedFuture<T, Err>> {
  using V = T;
  static constexpr int kKind = kSh;
};
template <typename T>
struct HT<SharedFutureOn<T, Err>> {
  using V = T;
  static constexpr int kKind = kShOn;
};
template <typename T>
struct HT<Task<T, Err>> {
  using V = T;
  static constexpr int kKind = kTask;
};

struct Pipe;

struct Step {
  int id = 0;
  int form = fInline;
  int exe = kInl;
  int sig = sRes;
  int ret = rPlain;
  bool to_void = false;
  bool thr = false;
  bool echo = false;
  bool lvalue = false;
  Out out;
  Pipe* inner = nullptr;
};

struct Item {
  bool is_conv = false;
  int conv = cOff;
  int exe = kInl;
  Step step;
};

struct Pending final : yaclib::Job {
  void Call() noexcept final;
  void Drop() noexcept final {
    mc::Fail("HARNESS", "the background executor dropped a job");
  }
  Pipe* p = nullptr;
};

struct Pipe {
  int id = 0;
  int src = xMake;
  bool src_void = false;
  int exe = kInl;
  Out out;
  u32 how = 0;       // 0 before the chain is attached, 1 later
  bool drop = false;  // a promise is dropped rather than set
  Step first;        // Run / Schedule / contract function / coroutine body
  int on = -1;       // coroutine: co_await On(e)
  Pipe* sub = nullptr;  // awaited by the coroutine / the started Task
  std::vector<Item> items;
  int kind = kFut;
  bool is_void = false;
  // run time
  std::variant<std::monostate, Promise<Val, Err>, Promise<void, Err>, SharedPromise<Val, Err>, SharedPromise<void, Err>> promise;
  Pending pending;
  bool keep = false;  // a copy of the first SharedFuture stays alive
  std::variant<std::monostate, SharedFuture<Val, Err>, SharedFuture<void, Err>> kept;
  int wait_id = 0;  // event after the co_await
};

// how the top level handle is consumed
enum FinK : int {
  nGet,
  nWaitTouch,
  nDrop,      // destructor
  nDetach,    // Detach() / Task: Detach() / Detach(e)
  nDetachF,   // DetachInline(f) / Detach(e, f) / Detach(f), Subscribe*
  nCoAwait,   // by a coroutine
  nCancel,    // Task only
  nCoAwaitKeep,  // Task only: co_await Await(task), then Touch
};
struct Fin {
  int how = nGet;
  bool start = false;  // Task: ToFuture first
  int start_exe = -1;
  Step step;  // nDetachF
};

struct Event {
  int id = 0;
  Out in;
  int where = kAnywhere;
};

// ------------------------------------------------------------------ executors
// Gives any executor an identity and records what it accepted; allocates nothing
class Via final : public IExecutor {
 public:
  Via(int id, IExecutor& under) noexcept : _id{id}, _under{&under} {
    for (auto& w : _wraps) {
      w.via = this;
    }
  }
  ~Via() noexcept final {
    MC_CHECK_TAG("C03,C05", Ld(_refs) == 0, "executor %d: %d reference(s) not released at quiescence", _id, Ld(_refs));
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return _under->Alive();
  }
  void Submit(yaclib::Job& job) noexcept final {
    const int n = Inc(submits) - 1;
    MC_CHECK_TAG("HARNESS", n < kMax, "too many submissions");
    auto& w = _wraps[n];
    w.inner = &job;
    _under->Submit(w);
  }
  void IncRef() noexcept final {
    Inc(_refs);
  }
  void DecRef() noexcept final {
    if (Dec(_refs) < 0) {
      mc::Fail("C03,C05", "executor %d: reference released twice", _id);
    }
  }
  std::size_t GetRef() noexcept final {
    return static_cast<std::size_t>(Ld(_refs)) + 1;
  }
  Counter submits{0};
  static constexpr int kMax = 48;
  bool Accepted(int n) const noexcept {
    return Ld(_wraps[n].verdict) == 1;
  }
  int Finished(int n) const noexcept {
    return Ld(_wraps[n].verdict);
  }

 private:
  struct Wrap final : yaclib::Job {
    void Call() noexcept final {
      auto* j = inner;
      MC_CHECK_TAG("C05", Ld(verdict) == 0, "executor %d finished a job twice", via->_id);
      St(verdict, 1);
      ExeScope scope{via->_id};
      j->Call();
    }
    void Drop() noexcept final {
      auto* j = inner;
      MC_CHECK_TAG("C05", Ld(verdict) == 0, "executor %d finished a job twice", via->_id);
      St(verdict, 2);
      j->Drop();
    }
    Via* via = nullptr;
    yaclib::Job* inner = nullptr;
    Counter verdict{0};
  };
  int _id;
  IExecutor* _under;
  Counter _refs{0};
  Wrap _wraps[kMax];
};

// ------------------------------------------------------------------ the running program
constexpr int kMaxEvents = 64;
struct Run {
  std::array<IExecutor*, kMaxExe> exe{};  // by id
  IExecutor* bg = nullptr;
  bool quiet = false;     // allocate nothing beside the library
  Counter started{1};     // may steps run?
  void (*pump)() = nullptr;
  Out final;              // what the consumer got
  Counter finals{0};
  Counter n{0};
  struct Rec {
    Counter id{0}, kind{0}, v{0}, where{0};
  } rec[kMaxEvents];

  void Invoked(int id, const Out& in) noexcept {
    MC_CHECK_TAG("C12", Ld(started) != 0, "step %d ran before its Task was started", id);
    const int i = Inc(n) - 1;
    MC_CHECK_TAG("HARNESS", i < kMaxEvents, "too many events");
    St(rec[i].kind, in.kind);
    St(rec[i].v, in.v);
    St(rec[i].where, CurExe());
    St(rec[i].id, id);
    if (mc::Verbose() && !quiet) {
      mc::Log("step %d invoked with %s on executor %d", id, Str(in).c_str(), CurExe());
    }
  }
};
inline Run* g_run = nullptr;

inline IExecutor& Exec(int id) noexcept {
  return *g_run->exe[id];
}

Any Build(Pipe& p);

// ------------------------------------------------------------------ functors
template <typename T, int S>
struct ArgOf;
template <typename T>
struct ArgOf<T, sRes> {
  using Type = Result<T, Err>;
};
template <typename T>
struct ArgOf<T, sResC> {
  using Type = const Result<T, Err>&;
};
template <typename T>
struct ArgOf<T, sResR> {
  using Type = Result<T, Err>&&;
};
template <typename T>
struct ArgOf<T, sV> {
  using Type = T;
};
template <typename T>
struct ArgOf<T, sVC> {
  using Type = const T&;
};
template <typename T>
struct ArgOf<T, sVR> {
  using Type = T&&;
};
template <typename T>
struct ArgOf<T, sErr> {
  using Type = Err;
};
template <typename T>
struct ArgOf<T, sExc> {
  using Type = std::exception_ptr;
};

template <typename T, int R>
struct RetOf;
template <typename T>
struct RetOf<T, rPlain> {
  using Type = T;
};
template <typename T>
struct RetOf<T, rRes> {
  using Type = Result<T, Err>;
};
template <typename T>
struct RetOf<T, rFut> {
  using Type = Future<T, Err>;
};
template <typename T>
struct RetOf<T, rFutOn> {
  using Type = FutureOn<T, Err>;
};
template <typename T>
struct RetOf<T, rSh> {
  using Type = SharedFuture<T, Err>;
};
template <typename T>
struct RetOf<T, rShOn> {
  using Type = SharedFutureOn<T, Err>;
};
template <typename T>
struct RetOf<T, rTask> {
  using Type = Task<T, Err>;
};

template <typename T>
Out Seen(const Result<T, Err>& r) noexcept {
  return OutOf(r);
}
inline Out Seen(const ValBase& v) noexcept {
  return {kVal, v.Get()};
}
inline Out Seen(const Err& e) noexcept {
  return {kErr, e.code};
}
inline Out Seen(const std::exception_ptr& e) noexcept {
  return {kExc, ExPayload(e)};
}

template <typename To, int R, typename In>
typename RetOf<To, R>::Type Produce(Step& s, [[maybe_unused]] In* in) {
  if (s.thr) {
    throw Ex{s.out.v};
  }
  if constexpr (R == rPlain) {
    if constexpr (!std::is_void_v<To>) {
      return To{s.out.v};
    }
  } else if constexpr (R == rRes) {
    using Res = Result<To, Err>;
    if constexpr (std::is_same_v<std::remove_const_t<In>, Res>) {
      if (s.echo) {
        return std::move(*in);
      }
    }
    return ResOf<To>(s.out);
  } else {
    return std::get<typename RetOf<To, R>::Type>(Build(*s.inner));
  }
}

// Functor of one step: S how it takes the input, R what it returns
template <typename From, int S, typename To, int R>
struct Fn {
  Step* s;
  Tok tok;
  explicit Fn(Step& step) noexcept : s{&step} {
  }
  typename RetOf<To, R>::Type operator()(typename ArgOf<From, S>::Type a) {
    tok.Alive();
    g_run->Invoked(s->id, Seen(a));
    return Produce<To, R>(*s, std::addressof(a));
  }
};
template <typename From, typename To, int R>
struct Fn<From, sNone, To, R> {
  Step* s;
  Tok tok;
  explicit Fn(Step& step) noexcept : s{&step} {
  }
  typename RetOf<To, R>::Type operator()() {
    tok.Alive();
    g_run->Invoked(s->id, {kVal, 0});
    return Produce<To, R>(*s, static_cast<int*>(nullptr));
  }
};

// ------------------------------------------------------------------ which combinations exist (compile time budget)
constexpr bool Allowed(bool from_void, bool shared, int s, bool to_void, int r) noexcept {
  if (from_void && (s == sV || s == sVC || s == sVR)) {
    return false;
  }
  if (!from_void && s == sNone) {
    return false;
  }
  if (shared && (s == sResR || s == sVR)) {
    return false;
  }
  const bool same = from_void == to_void;
  switch (s) {
    case sRes:
    case sV:
    case sNone:
      return true;
    case sResC:
    case sVC:
    case sResR:
    case sVR:
      return same && (r == rPlain || r == rRes || r == rFut || r == rTask);
    default:
      return same && (r == rPlain || r == rRes || r == rFut || r == rSh || r == rTask);
  }
}

// calls F<S, To, R>() for the run time values
template <typename From, bool Shared, typename F>
Any Dispatch(const Step& st, F&& f) {
  Any out;
  auto per_ret = [&]<int S, typename To>() {
    auto one = [&]<int R>() {
      if constexpr (Allowed(std::is_void_v<From>, Shared, S, std::is_void_v<To>, R)) {
        if (st.ret == R) {
          out = f.template operator()<S, To, R>();
          return true;
        }
      }
      return false;
    };
    return one.template operator()<rPlain>() || one.template operator()<rRes>() || one.template operator()<rFut>() ||
           one.template operator()<rFutOn>() || one.template operator()<rSh>() || one.template operator()<rShOn>() ||
           one.template operator()<rTask>();
  };
  auto per_sig = [&]<int S>() {
    if constexpr (Allowed(std::is_void_v<From>, Shared, S, std::is_void_v<From>, rPlain)) {
      if (st.sig == S) {
        return st.to_void ? per_ret.template operator()<S, void>() : per_ret.template operator()<S, Val>();
      }
    }
    return false;
  };
  const bool ok = per_sig.template operator()<sRes>() || per_sig.template operator()<sResC>() || per_sig.template operator()<sResR>() ||
                  per_sig.template operator()<sV>() || per_sig.template operator()<sVC>() || per_sig.template operator()<sVR>() ||
                  per_sig.template operator()<sNone>() || per_sig.template operator()<sErr>() || per_sig.template operator()<sExc>();
  if (!ok) {
    mc::Fail("HARNESS", "no such step: sig %d ret %d to_void %d", st.sig, st.ret, st.to_void);
  }
  return out;
}

// One attached step; explicitly instantiated in pipe_*.cpp. C: through an executor or inline
template <typename T, int Group, bool C>  // Group: 0 unique, 1 shared, 2 lazy
Any Attach(Any&& any, Step& st);

// Sources whose functor takes nothing or a Result<void>; explicitly instantiated in pipe_src*.cpp
template <int Src>
Any RunOne(Step& st, int exe);
// Detach / Subscribe with a functor
template <typename T, int Group>
void DetachWith(Any&& any, Step& st);

void Consume(Any&& any, Fin& fin, bool is_void);

// ------------------------------------------------------------------ generation and sequential reading (pipe.cpp)
struct GenOpts {
  bool lazy = false;
  int exes = 2;          // user executors have the ids 2 .. 2 + exes - 1
  int max_steps = 5;
  int depth = 2;
  bool no_coro = false;
  bool single = false;   // nothing may block
};
struct Program {
  std::deque<Pipe> pool;
  Pipe* top = nullptr;
  Fin fin;
  int ids = 0;
  int budget = 14;
};
void Generate(Program& pr, const GenOpts& o);
void GenerateFin(Program& pr, const GenOpts& o);
std::string Text(const Program& pr);

// acc(exe, k): was the k-th submission to this executor accepted?
struct Reading {
  std::function<bool(int, int)> acc;
  bool never_started = false;
  // results
  std::vector<Event> events;
  std::array<int, kMaxExe> submits{};
  int refused = 0;
  int allocs = 0;       // upper bound of the blocks the library may allocate, one per step
  int convs = 0;        // Split, Share, Connect: not limited by any property
  Out out;
  bool has_out = false;  // the consumer gets an outcome
  std::vector<std::pair<Pipe*, Out>> kept;
};
void Read(Program& pr, Reading& r);
// compares what happened with the reading: Fail() on the first difference
void Compare(Program& pr, Reading& r, Run& run);
// turns a lazy program into the same eager one
void MakeEager(Program& pr);
void CheckKept(Program& pr, Reading& r);

}  // namespace pl
