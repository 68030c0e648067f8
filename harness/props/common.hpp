// Instrumented types and executors shared by all scenarios
#pragma once

#include <mc.hpp>

#include <yaclib/exe/executor.hpp>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/job.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/result.hpp>

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include <yaclib_std/atomic>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/thread>

namespace h {

using mc::P;
using mc::PB;
using mc::Point;

// Relaxed counters: create no happens-before edges and no schedule points
using Counter = std::atomic<int>;
inline int Inc(Counter& c) noexcept {
  return c.fetch_add(1, std::memory_order_relaxed) + 1;
}
inline int Dec(Counter& c) noexcept {
  return c.fetch_sub(1, std::memory_order_relaxed) - 1;
}
inline int Ld(const Counter& c) noexcept {
  return c.load(std::memory_order_relaxed);
}
inline void St(Counter& c, int v) noexcept {
  c.store(v, std::memory_order_relaxed);
}

inline Counter g_vals{0};   // live Val / MVal
inline Counter g_toks{0};   // live functor captures
inline Counter g_exs{0};    // live exception objects
inline Counter g_copies{0};

constexpr std::uint32_t kAlive = 0xA11FE000;
constexpr std::uint32_t kMoved = 0x30FED000;
constexpr std::uint32_t kDead = 0xDEAD0000;

// "+C03": own property of the scenario and C03
constexpr const char* kOwn03 = "+C03";

class ValBase {
 public:
  ValBase() noexcept : _magic{kDead}, _v{0} {
  }
  int Get() const noexcept {
    if (_magic == kMoved) {
      mc::Fail("", "a moved-from value was read");
    }
    if (_magic != kAlive) {
      mc::Fail(kOwn03, "a destroyed or never constructed value was read (magic %x)", _magic);
    }
    if (_self != this || _check != (_v ^ 0x5A5A5A5A)) {
      mc::Fail("", "a torn value was read");
    }
    return _v;
  }
  bool MovedFrom() const noexcept {
    return _magic == kMoved;
  }

 protected:
  void Make(int v) noexcept {
    _magic = kAlive;
    _v = v;
    _check = v ^ 0x5A5A5A5A;
    _self = this;
    Inc(g_vals);
  }
  void CopyFrom(const ValBase& o) noexcept {
    Make(o.Get());
  }
  void MoveFrom(ValBase& o) noexcept {
    Make(o.Get());
    o._magic = kMoved;
  }
  void Destroy() noexcept {
    if (_magic != kAlive && _magic != kMoved) {
      mc::Fail(kOwn03, "a value was destroyed twice (magic %x)", _magic);
    }
    _magic = kDead;
    Dec(g_vals);
  }
  void AssignFrom(int v) noexcept {
    if (_magic != kAlive && _magic != kMoved) {
      mc::Fail(kOwn03, "assignment to a destroyed value (magic %x)", _magic);
    }
    _magic = kAlive;
    _v = v;
    _check = v ^ 0x5A5A5A5A;
  }
  std::uint32_t _magic;
  int _v;
  int _check = 0;
  const void* _self = nullptr;
  friend struct ValAccess;
};

struct ValAccess {
  static void SetMoved(ValBase& o) noexcept {
    o._magic = kMoved;
  }
};

// copyable value
class Val : public ValBase {
 public:
  explicit Val(int v) noexcept {
    Make(v);
  }
  Val(const Val& o) noexcept {
    CopyFrom(o);
    Inc(g_copies);
  }
  Val(Val&& o) noexcept {
    MoveFrom(o);
  }
  Val& operator=(const Val& o) noexcept {
    int v = o.Get();
    AssignFrom(v);
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    if (this != &o) {
      int v = o.Get();
      AssignFrom(v);
      ValAccess::SetMoved(o);
    }
    return *this;
  }
  ~Val() noexcept {
    Destroy();
  }
};

// move-only value
class MVal : public ValBase {
 public:
  explicit MVal(int v) noexcept {
    Make(v);
  }
  MVal(MVal&& o) noexcept {
    MoveFrom(o);
  }
  MVal& operator=(MVal&& o) noexcept {
    if (this != &o) {
      int v = o.Get();
      AssignFrom(v);
      ValAccess::SetMoved(o);
    }
    return *this;
  }
  ~MVal() noexcept {
    Destroy();
  }
};

struct Err final {
  int code;
  Err(yaclib::StopTag) noexcept : code{-1} {
  }
  explicit Err(int c) noexcept : code{c} {
  }
  static const char* What() noexcept {
    return "h::Err";
  }
};

struct Ex {
  explicit Ex(int value) noexcept : v{value} {
    Inc(g_exs);
  }
  Ex(const Ex& o) noexcept : v{o.v} {
    Inc(g_exs);
  }
  ~Ex() noexcept {
    // the reference count of exception_ptr lives in libstdc++, which is not instrumented: model its ordering here
    mc::HbAcquire(this);
    Dec(g_exs);
    v = -777;
  }
  int Read() const noexcept {
    int x = v;
    mc::HbRelease(this);
    return x;
  }
  int v;
};

// capture of a functor: counts live instances, detects use after destruction
class Tok {
 public:
  Tok() noexcept : _magic{kAlive} {
    Inc(g_toks);
  }
  Tok(const Tok& o) noexcept : _magic{o.Alive()} {
    Inc(g_toks);
  }
  Tok(Tok&& o) noexcept : _magic{o.Alive()} {
    Inc(g_toks);
  }
  Tok& operator=(const Tok&) noexcept = default;
  ~Tok() noexcept {
    if (_magic != kAlive) {
      mc::Fail(kOwn03, "a functor capture was destroyed twice");
    }
    _magic = kDead;
    Dec(g_toks);
  }
  std::uint32_t Alive() const noexcept {
    if (_magic != kAlive) {
      mc::Fail(kOwn03, "a functor capture was used after its destruction");
    }
    return _magic;
  }

 private:
  std::uint32_t _magic;
};

// ------------------------------------------------------------------ outcomes
enum Kind : int { kVal = 0, kExc = 1, kErr = 2, kEmptyRes = 3 };

struct Out {
  int kind = kEmptyRes;
  int v = 0;  // payload; kErr with v == -1 is the StopError state
  bool operator==(const Out&) const = default;
};
inline constexpr Out kStop{kErr, -1};

inline std::string Str(const Out& o) {
  char b[32];
  static const char* const n[] = {"value", "exception", "error", "empty"};
  if (o == kStop) {
    return "stop";
  }
  std::snprintf(b, sizeof b, "%s(%d)", n[o.kind & 3], o.v);
  return b;
}

inline int ExPayload(const std::exception_ptr& p) noexcept {
  if (!p) {
    return -1000;
  }
  try {
    std::rethrow_exception(p);
  } catch (const Ex& e) {
    return e.Read();
  } catch (...) {
    return -1001;
  }
}

inline int PayloadOf(const ValBase& v) noexcept {
  return v.Get();
}
inline int PayloadOf(const yaclib::Unit&) noexcept {
  return 0;
}
inline int PayloadOf(int v) noexcept {
  return v;
}

template <typename V, typename E>
Out OutOf(const yaclib::Result<V, E>& r) noexcept {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return {kVal, PayloadOf(r.Value())};
    case yaclib::ResultState::Exception:
      return {kExc, ExPayload(r.Exception())};
    case yaclib::ResultState::Error:
      if constexpr (std::is_same_v<E, Err>) {
        return {kErr, r.Error().code};
      } else {
        return kStop;
      }
    default:
      return {kEmptyRes, 0};
  }
}

template <typename V>
yaclib::Result<V, Err> ResOf(const Out& o) {
  if (o.kind == kVal) {
    if constexpr (std::is_void_v<V>) {
      return {std::in_place};
    } else {
      return {std::in_place, o.v};
    }
  }
  if (o.kind == kExc) {
    return {std::make_exception_ptr(Ex{o.v})};
  }
  if (o == kStop) {
    return {yaclib::StopTag{}};
  }
  return {Err{o.v}};
}

// a void value carries no payload
template <typename V>
Out Norm(Out o) noexcept {
  if (o.kind == kVal && std::is_void_v<V>) {
    o.v = 0;
  }
  return o;
}

// value / error / exception / stop, payload from the tag
inline Out GenOut(int payload) {
  switch (P(4)) {
    case 0:
      return {kVal, payload};
    case 1:
      return {kExc, payload};
    case 2:
      return {kErr, payload};
    default:
      return kStop;
  }
}

// Fulfils a promise in one of the ways the API offers
template <typename V, typename Promise>
void Fulfil(Promise&& p, const Out& o, bool drop_for_stop) {
  if (o.kind == kVal) {
    if constexpr (std::is_void_v<V>) {
      std::move(p).Set();
    } else {
      std::move(p).Set(o.v);
    }
  } else if (o.kind == kExc) {
    std::move(p).Set(std::make_exception_ptr(Ex{o.v}));
  } else if (o == kStop) {
    if (drop_for_stop) {
      [[maybe_unused]] auto dropped = std::move(p);
    } else {
      std::move(p).Set(yaclib::StopTag{});
    }
  } else {
    std::move(p).Set(Err{o.v});
  }
}

// ------------------------------------------------------------------ threads
using Thread = yaclib_std::thread;

// ------------------------------------------------------------------ executors
inline int g_cur_exe[64];

struct ExeScope {
  explicit ExeScope(int id) noexcept : slot{mc::Self()}, prev{g_cur_exe[slot]} {
    g_cur_exe[slot] = id;
  }
  ~ExeScope() noexcept {
    g_cur_exe[slot] = prev;
  }
  mc::u32 slot;
  int prev;
};
inline __attribute__((no_sanitize("thread"))) int CurExe() noexcept {
  return g_cur_exe[mc::Self()];
}

// Executor with identity: n worker threads (0 = runs jobs inside Submit), refuses after `accept` submissions
class Exe final : public yaclib::IExecutor {
 public:
  explicit Exe(int id, int workers, int accept = 1 << 30) : _id{id}, _accept{accept} {
    for (int i = 0; i < workers; ++i) {
      _threads.emplace_back([this] {
        Loop();
      });
    }
    _inline = workers == 0;
  }
  ~Exe() noexcept final {
    Finish();
    int refs = Ld(_refs);
    if (refs != 0) {
      mc::Fail(kOwn03, "executor %d: %d reference(s) not released at quiescence", _id, refs);
    }
    if (Ld(submits) != Ld(calls) + Ld(drops)) {
      mc::Fail("", "executor %d: harness lost a job", _id);
    }
  }
  // Runs everything accepted, joins the workers
  void Finish() noexcept {
    {
      std::lock_guard lock{_m};
      _finish = true;
      _cv.notify_all();
    }
    for (auto& t : _threads) {
      t.join();
    }
    _threads.clear();
  }
  // Refuse everything from now on
  void Stop() noexcept {
    std::lock_guard lock{_m};
    _stopped = true;
  }
  // Called between cases of one program when nothing can be submitted any more: removes refused state
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    std::lock_guard lock{_m};
    return !_stopped && _accept > 0;
  }
  void Submit(yaclib::Job& job) noexcept final {
    Inc(submits);
    std::unique_lock lock{_m};
    if (_stopped || _accept <= 0) {
      lock.unlock();
      Inc(drops);
      job.Drop();
      return;
    }
    --_accept;
    if (_inline || _threads_gone) {
      lock.unlock();
      Inc(calls);
      ExeScope scope{_id};
      job.Call();
      return;
    }
    _jobs.push_back(&job);
    _cv.notify_one();
  }
  void IncRef() noexcept final {
    Inc(_refs);
  }
  void DecRef() noexcept final {
    if (Dec(_refs) < 0) {
      mc::Fail(kOwn03, "executor %d: reference released twice", _id);
    }
  }
  std::size_t GetRef() noexcept final {
    return static_cast<std::size_t>(Ld(_refs)) + 1;
  }
  int Id() const noexcept {
    return _id;
  }
  Counter submits{0}, calls{0}, drops{0};

 private:
  void Loop() {
    ExeScope scope{_id};
    std::unique_lock lock{_m};
    while (true) {
      if (!_jobs.empty()) {
        auto* job = _jobs.front();
        _jobs.erase(_jobs.begin());
        lock.unlock();
        Inc(calls);
        job->Call();
        lock.lock();
      } else if (_finish) {
        return;
      } else {
        _cv.wait(lock);
      }
    }
  }
  int _id;
  int _accept;
  bool _inline = false;
  bool _finish = false;
  bool _stopped = false;
  bool _threads_gone = false;
  Counter _refs{0};
  mutable yaclib_std::mutex _m;
  yaclib_std::condition_variable _cv;
  std::vector<yaclib::Job*> _jobs;
  std::vector<Thread> _threads;
};

// Job with its own exactly-once accounting
class CJob final : public yaclib::Job {
 public:
  void Call() noexcept final {
    if (Inc(calls) + Ld(drops) != 1) {
      mc::Fail("", "job finished twice (Call)");
    }
    if (on_call) {
      on_call(*this);
    }
  }
  void Drop() noexcept final {
    if (Inc(drops) + Ld(calls) != 1) {
      mc::Fail("", "job finished twice (Drop)");
    }
    if (on_drop) {
      on_drop(*this);
    }
  }
  int Done() const noexcept {
    return Ld(calls) + Ld(drops);
  }
  Counter calls{0}, drops{0};
  int id = 0;
  int thread = 0;
  void* ctx = nullptr;
  void (*on_call)(CJob&) = nullptr;
  void (*on_drop)(CJob&) = nullptr;
};

// Everything must be gone at the end of a case
struct Quiet {
  Quiet() noexcept {
    St(g_vals, 0);
    St(g_toks, 0);
    St(g_exs, 0);
    St(g_copies, 0);
    for (auto& c : g_cur_exe) {
      c = 0;
    }
  }
  ~Quiet() noexcept {
    if (Ld(g_vals) != 0) {
      mc::Fail(kOwn03, "%d value(s) not destroyed at quiescence", Ld(g_vals));
    }
    if (Ld(g_toks) != 0) {
      mc::Fail(kOwn03, "%d functor capture(s) not destroyed at quiescence", Ld(g_toks));
    }
    if (Ld(g_exs) != 0) {
      mc::Fail(kOwn03, "%d exception object(s) not released at quiescence", Ld(g_exs));
    }
  }
};

// plain memory written before fulfilment and read after completion
struct Side {
  int x = 0;
  void Write(int v) noexcept {
    x = v;
  }
  void Expect(int v, const char* who) const noexcept {
    if (x != v) {
      mc::Fail("+C04", "%s: writes made before fulfilment are not visible (%d != %d)", who, x, v);
    }
  }
};

}  // namespace h
