// C18: generated programs over yaclib_std locks, condition variables, threads and thread locals on fibers.
// The oracle is a history of calls: who certainly holds what, who possibly did, which notify must have woken whom.
#include "fiberenv.hpp"

#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>

#include <memory>
#include <mutex>
#include <vector>

namespace {

using mc::P;
using mc::PB;
using Clock = yaclib_std::chrono::steady_clock;
using i64 = std::int64_t;
using mc::u32;
using mc::u64;

constexpr u64 kInf = ~u64{0};
constexpr i64 kNoTime = INT64_MAX;

struct ILock {
  virtual ~ILock() = default;
  virtual void lock() = 0;
  virtual bool try_lock() = 0;
  virtual bool try_for(i64 ns, u32 unit) = 0;
  virtual bool try_until(i64 ns) = 0;
  virtual void unlock() = 0;
  virtual void lock_shared() = 0;
  virtual bool try_lock_shared() = 0;
  virtual bool try_shared_for(i64 ns, u32 unit) = 0;
  virtual bool try_shared_until(i64 ns) = 0;
  virtual void unlock_shared() = 0;
  virtual yaclib_std::mutex* mutex() {
    return nullptr;
  }
  const char* name = "";
  bool timed = false, recursive = false, shared = false;
};

i64 Now() {
  return Clock::now().time_since_epoch().count();
}

Clock::time_point At(i64 ns) {
  return Clock::time_point{std::chrono::nanoseconds{ns}};
}

template <typename M>
struct Lock final : ILock {
  M m;
  static constexpr bool kTimed = requires(M& x) { x.try_lock_for(std::chrono::nanoseconds{1}); };
  static constexpr bool kShared = requires(M& x) { x.lock_shared(); };
  Lock(const char* n, bool r) {
    name = n;
    timed = kTimed;
    shared = kShared;
    recursive = r;
  }
  void lock() final {
    m.lock();
  }
  bool try_lock() final {
    return m.try_lock();
  }
  bool try_for(i64 ns, u32 unit) final {
    if constexpr (kTimed) {
      if (unit == 1) {
        return m.try_lock_for(std::chrono::duration<double, std::nano>{static_cast<double>(ns)});
      }
      return m.try_lock_for(std::chrono::nanoseconds{ns});
    }
    return false;
  }
  bool try_until(i64 ns) final {
    if constexpr (kTimed) {
      return m.try_lock_until(At(ns));
    }
    return false;
  }
  void unlock() final {
    m.unlock();
  }
  void lock_shared() final {
    if constexpr (kShared) {
      m.lock_shared();
    }
  }
  bool try_lock_shared() final {
    if constexpr (kShared) {
      return m.try_lock_shared();
    }
    return false;
  }
  bool try_shared_for(i64 ns, u32 unit) final {
    if constexpr (kShared && kTimed) {
      if (unit == 1) {
        return m.try_lock_shared_for(std::chrono::duration<double, std::nano>{static_cast<double>(ns)});
      }
      return m.try_lock_shared_for(std::chrono::nanoseconds{ns});
    }
    return false;
  }
  bool try_shared_until(i64 ns) final {
    if constexpr (kShared && kTimed) {
      return m.try_lock_shared_until(At(ns));
    }
    return false;
  }
  void unlock_shared() final {
    if constexpr (kShared) {
      m.unlock_shared();
    }
  }
  yaclib_std::mutex* mutex() final {
    if constexpr (std::is_same_v<M, yaclib_std::mutex>) {
      return &m;
    }
    return nullptr;
  }
};

// one acquisition: call, outcome, and when it was given back
struct Att {
  u32 fiber, lock;
  bool exclusive;
  u64 call;
  i64 call_time;
  u64 ret = kInf;
  i64 ret_time = kNoTime;
  bool is_try = false;
  i64 deadline = kNoTime;
  bool ok = false;
  u64 ucall = kInf, uret = kInf;
  i64 uret_time = kNoTime;
};

// one blocking on a condition variable (a wait with a predicate is a sequence of them)
struct Wait {
  u32 fiber, cv;
  u64 start;
  u64 end = kInf;       // returned
  u64 blocked = kInf;   // surely blocked since
};

struct Notify {
  u32 cv;
  bool all;
  u64 call, ret = kInf;
};

enum class In { kRun, kLock, kTimed, kCv, kCvTimed, kJoin, kSleep, kDone };

enum OpKind { oAcquire, oRelease, oYield, oSleep, oWait, oNotify, oSpawn, oJoin, oOps };

struct Op {
  OpKind kind;
  u32 obj, how;
  bool exclusive;
  i64 ns;
  u32 unit;
  u32 body;  // for spawn: which program
};

struct Held {
  u32 lock;
  std::size_t att;
};

struct Fiber {
  u32 id;
  In in = In::kRun;
  u32 lock = 0;  // what it is waiting for
  bool exclusive = true;
  std::size_t wait = 0;
  u32 target = 0;
  std::vector<Held> held;
  bool finished = false;
};

struct World {
  bool exact = false;
  std::vector<std::unique_ptr<ILock>> locks;
  struct Cv {
    std::unique_ptr<yaclib_std::condition_variable> cv;
    u32 lock = 0;
    bool flag = false;
  };
  std::vector<Cv> cvs;
  std::vector<std::unique_ptr<Fiber>> fibers;
  std::vector<std::vector<Op>> programs;
  struct Child {
    yaclib_std::thread thread;
    u32 fiber = 0;
    bool taken = false;
  };
  std::vector<std::unique_ptr<Child>> children;
  std::vector<Att> atts;
  std::vector<Wait> waits;
  std::vector<Notify> notifies;
  u64 seq = 0;
  bool stop = false;
  bool contended = false;
};

World* w;
yaclib_std::thread::id id_of_[8];

bool Incompatible(bool a_exclusive, bool b_exclusive) {
  return a_exclusive || b_exclusive;
}

const char* Mode(bool exclusive) {
  return exclusive ? "exclusive" : "shared";
}

// f holds the lock right now: nobody else may hold it in an incompatible mode
void CheckHold(u32 fiber, u32 lock, bool exclusive, const char* what) {
  for (auto& f : w->fibers) {
    if (f->id == fiber) {
      continue;
    }
    for (auto& h : f->held) {
      if (h.lock == lock && Incompatible(exclusive, w->atts[h.att].exclusive)) {
        mc::Fail("", "%s: fiber %u holds lock %u (%s) in %s mode after %s while fiber %u holds it in %s mode",
                 w->locks[lock]->name, fiber, lock, w->locks[lock]->name, Mode(exclusive), what, f->id,
                 Mode(w->atts[h.att].exclusive));
      }
    }
  }
  // a waiter that gave this lock back is blocked for sure
  for (auto& x : w->waits) {
    if (x.end == kInf && x.blocked == kInf && x.fiber != fiber && w->cvs[x.cv].lock == lock && exclusive) {
      x.blocked = w->seq;
    }
  }
}

std::size_t Begin(Fiber& f, u32 lock, bool exclusive, bool is_try, i64 deadline) {
  Att a{f.id, lock, exclusive, ++w->seq, Now()};
  a.is_try = is_try;
  a.deadline = deadline;
  w->atts.push_back(a);
  for (auto& x : w->fibers) {
    for (auto& h : x->held) {
      if (x->id != f.id && h.lock == lock && Incompatible(exclusive, w->atts[h.att].exclusive)) {
        w->contended = true;
      }
    }
  }
  return w->atts.size() - 1;
}

void End(Fiber& f, std::size_t i, bool ok, const char* what) {
  auto& a = w->atts[i];
  a.ret = ++w->seq;
  a.ret_time = Now();
  a.ok = ok;
  mc::Log("%lld fiber %u: %s of lock %u (%s, %s) -> %d", (long long)a.ret_time, f.id, what, a.lock,
          w->locks[a.lock]->name, Mode(a.exclusive), ok);
  if (ok) {
    CheckHold(f.id, a.lock, a.exclusive, what);
    f.held.push_back({a.lock, i});
  } else {
    MC_CHECK(a.is_try || a.deadline != kNoTime, "untimed lock failed");
    if (!a.is_try) {
      MC_CHECK(a.ret_time >= a.deadline, "%s: %s of fiber %u failed at %lld, before its deadline %lld",
               w->locks[a.lock]->name, what, f.id, (long long)a.ret_time, (long long)a.deadline);
      mc::Label("timed acquisition failed");
    } else {
      mc::Label("try failed");
    }
  }
}

u32 CountHeld(const Fiber& f, u32 lock) {
  u32 n = 0;
  for (auto& h : f.held) {
    n += h.lock == lock;
  }
  return n;
}

void Release(Fiber& f, u32 lock) {
  for (std::size_t k = f.held.size(); k-- > 0;) {
    if (f.held[k].lock != lock) {
      continue;
    }
    const auto i = f.held[k].att;
    f.held.erase(f.held.begin() + static_cast<std::ptrdiff_t>(k));
    const bool exclusive = w->atts[i].exclusive;
    w->atts[i].ucall = ++w->seq;
    mc::Log("%lld fiber %u: unlock of lock %u (%s)", (long long)Now(), f.id, lock, Mode(exclusive));
    exclusive ? w->locks[lock]->unlock() : w->locks[lock]->unlock_shared();
    w->atts[i].uret = ++w->seq;
    w->atts[i].uret_time = Now();
    return;
  }
}

void Acquire(Fiber& f, const Op& op) {
  auto& l = *w->locks[op.obj];
  const bool exclusive = op.exclusive || !l.shared;
  u32 how = op.how;
  if (!l.timed && how >= 2) {
    how -= 2;
  }
  if (const auto n = CountHeld(f, op.obj); n != 0 && (!l.recursive || n >= 3)) {
    return Release(f, op.obj);
  }
  // blocking only in the order of the indices, so that the locks alone never deadlock
  if (how == 0) {
    for (auto& h : f.held) {
      if (h.lock > op.obj) {
        how = 1;
      }
    }
  }
  const i64 now = Now();
  f.lock = op.obj;
  f.exclusive = exclusive;
  bool ok = true;
  switch (how) {
    case 0: {
      auto i = Begin(f, op.obj, exclusive, false, kNoTime);
      f.in = In::kLock;
      exclusive ? l.lock() : l.lock_shared();
      f.in = In::kRun;
      End(f, i, true, exclusive ? "lock" : "lock_shared");
      return;
    }
    case 1: {
      auto i = Begin(f, op.obj, exclusive, true, kNoTime);
      f.in = In::kTimed;
      ok = exclusive ? l.try_lock() : l.try_lock_shared();
      f.in = In::kRun;
      End(f, i, ok, exclusive ? "try_lock" : "try_lock_shared");
      return;
    }
    case 2: {
      auto i = Begin(f, op.obj, exclusive, false, now + op.ns);
      f.in = In::kTimed;
      ok = exclusive ? l.try_for(op.ns, op.unit) : l.try_shared_for(op.ns, op.unit);
      f.in = In::kRun;
      End(f, i, ok, exclusive ? "try_lock_for" : "try_lock_shared_for");
      return;
    }
    default: {
      auto i = Begin(f, op.obj, exclusive, false, now + op.ns);
      f.in = In::kTimed;
      ok = exclusive ? l.try_until(now + op.ns) : l.try_shared_until(now + op.ns);
      f.in = In::kRun;
      End(f, i, ok, exclusive ? "try_lock_until" : "try_lock_shared_until");
      return;
    }
  }
}

void CvWait(Fiber& f, const Op& op) {
  if (w->cvs.empty()) {
    return;
  }
  const u32 c = op.obj % static_cast<u32>(w->cvs.size());
  auto& cv = w->cvs[c];
  const u32 lock = cv.lock;
  // nothing else is held, or everybody could wait for this fiber
  while (!f.held.empty() && !(f.held.size() == 1 && f.held[0].lock == lock)) {
    Release(f, f.held.back().lock);
  }
  if (f.held.empty()) {
    auto i = Begin(f, lock, true, false, kNoTime);
    f.lock = lock;
    f.exclusive = true;
    f.in = In::kLock;
    w->locks[lock]->lock();
    f.in = In::kRun;
    End(f, i, true, "lock");
  }
  if (w->stop) {
    return;
  }
  std::unique_lock guard{*w->locks[lock]->mutex(), std::adopt_lock};
  const u32 how = op.how % 6;
  const bool pred = how % 2 == 1;
  const bool timed = how >= 2;
  const i64 now = Now();
  const i64 deadline = timed ? now + op.ns : kNoTime;
  auto give_back = [&] {
    auto& a = w->atts[f.held[0].att];
    a.ucall = ++w->seq;
    if (w->exact) {
      a.uret = a.ucall;
      a.uret_time = Now();
    }
    f.held.clear();
  };
  auto begin = [&] {
    Wait x{f.id, c, ++w->seq};
    if (w->exact) {
      x.blocked = x.start;
    }
    w->waits.push_back(x);
    f.wait = w->waits.size() - 1;
    f.in = timed ? In::kCvTimed : In::kCv;
  };
  std::size_t old = f.held[0].att;
  bool waiting = false;
  auto predicate = [&] {
    // called with the lock held
    ++w->seq;
    if (waiting) {
      w->waits[f.wait].end = w->seq;
      waiting = false;
    }
    f.in = In::kRun;
    CheckHold(f.id, lock, true, "condition_variable wait (in the predicate)");
    const bool r = cv.flag || w->stop;
    if (!r) {
      begin();
      waiting = true;
    } else {
      f.in = In::kRun;
    }
    return r;
  };
  give_back();
  if (!pred) {
    begin();
    waiting = true;
  } else {
    f.in = In::kTimed;
  }
  mc::Log("%lld fiber %u: waits on cv %u (kind %u, %lld)", (long long)now, f.id, c, how, (long long)op.ns);
  bool timeout = false;
  bool value = true;
  const auto d = std::chrono::nanoseconds{op.ns};
  switch (how) {
    case 0:
      cv.cv->wait(guard);
      break;
    case 1:
      cv.cv->wait(guard, predicate);
      break;
    case 2:
      timeout = cv.cv->wait_for(guard, d) == std::cv_status::timeout;
      break;
    case 3:
      value = cv.cv->wait_for(guard, d, predicate);
      break;
    case 4:
      timeout = cv.cv->wait_until(guard, At(deadline)) == std::cv_status::timeout;
      break;
    default:
      value = cv.cv->wait_until(guard, At(deadline), predicate);
      break;
  }
  f.in = In::kRun;
  ++w->seq;
  if (waiting) {
    w->waits[f.wait].end = w->seq;
  }
  mc::Log("%lld fiber %u: wait on cv %u returned (timeout %d value %d)", (long long)Now(), f.id, c, timeout, value);
  CheckHold(f.id, lock, true, "condition_variable wait");
  if (!w->exact) {
    w->atts[old].uret = w->seq;
    w->atts[old].uret_time = Now();
  }
  Att a{f.id, lock, true, w->exact ? w->seq : w->atts[old].ucall, now};
  a.ret = w->seq;
  a.ret_time = Now();
  a.ok = true;
  w->atts.push_back(a);
  f.held.push_back({lock, w->atts.size() - 1});
  MC_CHECK(guard.owns_lock() && guard.mutex() == w->locks[lock]->mutex(), "the lock is not owned after a wait");
  static_cast<void>(guard.release());
  if (timeout || !value) {
    mc::Label("timed wait timed out");
    MC_CHECK(Now() >= deadline, "condition_variable: a timed wait timed out at %lld, before its deadline %lld",
             (long long)Now(), (long long)deadline);
  } else {
    mc::Label("wait ended by a notify");
    w->contended = true;
  }
  if (pred) {
    MC_CHECK(value == (cv.flag || w->stop), "condition_variable: the wait returned %d, the predicate is %d", value,
             cv.flag || w->stop);
    if (PB()) {
      cv.flag = false;
    }
  }
}

void DoNotify(Fiber& f, const Op& op) {
  if (w->cvs.empty()) {
    return;
  }
  const u32 c = op.obj % static_cast<u32>(w->cvs.size());
  auto& cv = w->cvs[c];
  bool locked = false;
  if (op.how & 2) {
    // like everybody does it: with the lock held
    bool can = CountHeld(f, cv.lock) == 0;
    for (auto& h : f.held) {
      can &= h.lock < cv.lock;
    }
    if (can) {
      auto i = Begin(f, cv.lock, true, false, kNoTime);
      f.lock = cv.lock;
      f.exclusive = true;
      f.in = In::kLock;
      w->locks[cv.lock]->lock();
      f.in = In::kRun;
      End(f, i, true, "lock");
      locked = true;
    }
  }
  if (CountHeld(f, cv.lock) != 0) {
    cv.flag = true;
  }
  if (locked && (op.how & 4)) {
    Release(f, cv.lock);
    locked = false;
  }
  Notify n{c, (op.how & 1) != 0, ++w->seq};
  w->notifies.push_back(n);
  const auto i = w->notifies.size() - 1;
  mc::Log("%lld fiber %u: notify_%s on cv %u", (long long)Now(), f.id, n.all ? "all" : "one", c);
  n.all ? cv.cv->notify_all() : cv.cv->notify_one();
  w->notifies[i].ret = ++w->seq;
  if (locked) {
    Release(f, cv.lock);
  }
}

void Body(Fiber& f, u32 program);

void Spawn(Fiber& f, const Op& op) {
  if (op.body >= w->programs.size() || w->fibers.size() >= 8) {
    return;
  }
  const u32 id = static_cast<u32>(w->fibers.size());
  w->fibers.push_back(std::make_unique<Fiber>());
  w->fibers.back()->id = id;
  auto* child = w->fibers.back().get();
  auto c = std::make_unique<World::Child>();
  c->fiber = id;
  yaclib_std::thread t;
  MC_CHECK(!t.joinable(), "a default constructed thread is joinable");
  MC_CHECK(t.get_id() == yaclib_std::thread::id{}, "a default constructed thread has an id");
  auto* slot = &id_of_[id];
  *slot = {};
  t = yaclib_std::thread{[child, slot](u32 program, std::unique_ptr<int> moved) {
                           MC_CHECK(moved != nullptr && *moved == 7, "an argument of the thread function got lost");
                           *slot = yaclib_std::this_thread::get_id();
                           Body(*child, program);
                         },
                         op.body, std::make_unique<int>(7)};
  MC_CHECK(t.joinable(), "a started thread is not joinable");
  if (op.how & 1) {
    yaclib_std::thread other{std::move(t)};
    MC_CHECK(!t.joinable() && other.joinable(), "joinable() after a move");
    t.swap(other);
    MC_CHECK(t.joinable() && !other.joinable(), "joinable() after a swap");
  }
  mc::Log("%lld fiber %u: starts fiber %u", (long long)Now(), f.id, id);
  if (op.how & 2) {
    t.detach();
    MC_CHECK(!t.joinable(), "joinable() after detach()");
    mc::Label("detach");
    return;
  }
  c->thread = std::move(t);
  MC_CHECK(!t.joinable() && c->thread.joinable(), "joinable() after a move assignment");
  w->children.push_back(std::move(c));
}

void Join(Fiber& f, World::Child& c) {
  c.taken = true;
  f.in = In::kJoin;
  f.target = c.fiber;
  const auto id = c.thread.get_id();
  mc::Log("%lld fiber %u: joins fiber %u", (long long)Now(), f.id, c.fiber);
  if (!w->fibers[c.fiber]->finished) {
    mc::Label("join that has to wait");
    w->contended = true;
  }
  c.thread.join();
  f.in = In::kRun;
  MC_CHECK(w->fibers[c.fiber]->finished, "thread: join returned before the thread function finished");
  MC_CHECK(id == id_of_[c.fiber], "thread: get_id is not what this_thread::get_id is in the thread");
  MC_CHECK(!c.thread.joinable(), "thread: joinable after join");
  mc::Log("%lld fiber %u: joined fiber %u", (long long)Now(), f.id, c.fiber);
}

void Sleep(Fiber& f, const Op& op) {
  const i64 now = Now();
  f.in = In::kSleep;
  if (op.how & 1) {
    yaclib_std::this_thread::sleep_until(At(now + op.ns));
  } else if (op.unit == 1) {
    yaclib_std::this_thread::sleep_for(std::chrono::duration<double, std::nano>{static_cast<double>(op.ns)});
  } else {
    yaclib_std::this_thread::sleep_for(std::chrono::nanoseconds{op.ns});
  }
  f.in = In::kRun;
  MC_CHECK(Now() >= now + op.ns, "sleep of %lld at %lld ended at %lld", (long long)op.ns, (long long)now,
           (long long)Now());
}

void Body(Fiber& f, u32 program) {
  const auto ops = w->programs[program];
  const auto self = yaclib_std::this_thread::get_id();
  for (auto& op : ops) {
    if (w->stop) {
      break;
    }
    switch (op.kind) {
      case oAcquire:
        Acquire(f, op);
        break;
      case oRelease:
        if (!f.held.empty()) {
          Release(f, f.held[op.obj % f.held.size()].lock);
        }
        break;
      case oYield:
        for (u32 i = 0; i <= op.how; ++i) {
          yaclib_std::this_thread::yield();
        }
        break;
      case oSleep:
        Sleep(f, op);
        break;
      case oWait:
        CvWait(f, op);
        break;
      case oNotify:
        DoNotify(f, op);
        break;
      case oSpawn:
        Spawn(f, op);
        break;
      case oJoin:
        if (!f.held.empty()) {
          break;  // the other one may need it
        }
        for (auto& c : w->children) {
          // a fiber joins only younger ones: no cycles
          if (!c->taken && c->fiber > f.id) {
            Join(f, *c);
            break;
          }
        }
        break;
      default:
        break;
    }
    for (auto& h : f.held) {
      CheckHold(f.id, h.lock, w->atts[h.att].exclusive, "having acquired it");
    }
    MC_CHECK(self == yaclib_std::this_thread::get_id(), "this_thread::get_id changed");
  }
  while (!f.held.empty()) {
    Release(f, f.held.back().lock);
  }
  f.finished = true;
  f.in = In::kDone;
}

u64 PossibleFrom(const Att& a) {
  return w->exact ? a.ret : a.call;
}
u64 PossibleTo(const Att& a) {
  return w->exact ? a.ucall : a.uret;
}

// a failed although nobody could stand in its way
void CheckFailures() {
  for (auto& a : w->atts) {
    if (a.ret == kInf || a.ok) {
      continue;
    }
    if (a.is_try) {
      bool legit = false;
      for (auto& b : w->atts) {
        legit |= b.lock == a.lock && b.fiber != a.fiber && b.ok && Incompatible(a.exclusive, b.exclusive) &&
                 PossibleFrom(b) < a.ret && PossibleTo(b) > a.call;
      }
      MC_CHECK(legit, "%s: try_lock%s of fiber %u failed although nobody held the lock in an incompatible mode",
               w->locks[a.lock]->name, a.exclusive ? "" : "_shared", a.fiber);
      continue;
    }
    // when was the lock given back for the last time?
    u64 from = a.call;
    i64 time = a.call_time;
    bool alone = true;
    for (auto& b : w->atts) {
      if (b.lock != a.lock || b.fiber == a.fiber || b.call > a.ret || PossibleTo(b) < a.call) {
        continue;
      }
      if (b.ok && Incompatible(a.exclusive, b.exclusive)) {
        if (PossibleTo(b) >= a.ret) {
          alone = false;
        } else if (b.uret > from) {
          from = b.uret;
          time = b.uret_time;
        }
      }
    }
    if (!alone) {
      continue;
    }
    for (auto& b : w->atts) {
      if (&b == &a || b.lock != a.lock || b.fiber == a.fiber) {
        continue;
      }
      // somebody else tried at the same time
      if (b.call < a.ret && b.ret > from) {
        alone = false;
      }
    }
    if (alone && time < a.deadline) {
      mc::Fail("", "%s: a timed %s acquisition of fiber %u failed at %lld (deadline %lld) although the lock was free since %lld",
               w->locks[a.lock]->name, Mode(a.exclusive), a.fiber, (long long)a.ret_time, (long long)a.deadline,
               (long long)time);
    }
  }
}

const Att* HeldBySomebody(u32 fiber, u32 lock, bool exclusive) {
  for (auto& f : w->fibers) {
    if (f->id == fiber) {
      continue;
    }
    for (auto& h : f->held) {
      if (h.lock == lock && Incompatible(exclusive, w->atts[h.att].exclusive)) {
        return &w->atts[h.att];
      }
    }
  }
  return nullptr;
}

bool Augment(u32 n, const std::vector<std::vector<u32>>& edges, std::vector<int>& owner, std::vector<char>& seen) {
  for (u32 x : edges[n]) {
    if (seen[x]) {
      continue;
    }
    seen[x] = 1;
    if (owner[x] < 0 || Augment(static_cast<u32>(owner[x]), edges, owner, seen)) {
      owner[x] = static_cast<int>(n);
      return true;
    }
  }
  return false;
}

// nobody can run any more: everybody who is not finished needs a reason
void CheckParked() {
  std::vector<std::size_t> parked;  // waits
  for (auto& f : w->fibers) {
    switch (f->in) {
      case In::kDone:
        break;
      case In::kLock:
        mc::Label("parked for a lock at the end");
        MC_CHECK(HeldBySomebody(f->id, f->lock, f->exclusive) != nullptr,
                 "%s: fiber %u is blocked in a %s acquisition for ever although nobody holds the lock in an incompatible mode",
                 w->locks[f->lock]->name, f->id, Mode(f->exclusive));
        break;
      case In::kCv:
        if (HeldBySomebody(f->id, w->cvs[w->waits[f->wait].cv].lock, true) == nullptr) {
          parked.push_back(f->wait);
        }
        break;
      case In::kJoin:
        MC_CHECK(!w->fibers[f->target]->finished, "thread: join of a finished thread does not return");
        break;
      default:
        mc::Fail("", "fiber %u is stopped for ever in an operation that has to end (%s)", f->id,
                 f->in == In::kSleep     ? "sleep"
                 : f->in == In::kCvTimed ? "timed wait on a condition variable"
                 : f->in == In::kTimed   ? "try or timed acquisition"
                                         : "running");
    }
  }
  for (u32 c = 0; c < w->cvs.size(); ++c) {
    std::vector<const Notify*> ones;
    for (auto& n : w->notifies) {
      if (n.cv != c) {
        continue;
      }
      bool matters = false;
      for (auto i : parked) {
        auto& x = w->waits[i];
        if (x.cv == c && x.blocked < n.call) {
          MC_CHECK(!n.all, "condition_variable: fiber %u was blocked before a notify_all and is never woken", x.fiber);
          matters = true;
        }
      }
      if (matters) {
        ones.push_back(&n);
      }
    }
    if (ones.empty()) {
      continue;
    }
    mc::Label("notify_one with a waiter that stays");
    std::vector<std::vector<u32>> edges(ones.size());
    for (u32 k = 0; k < w->waits.size(); ++k) {
      auto& x = w->waits[k];
      bool is_parked = false;
      for (auto i : parked) {
        is_parked |= i == k;
      }
      if (x.cv != c || is_parked) {
        continue;
      }
      for (u32 n = 0; n < ones.size(); ++n) {
        if (x.start < ones[n]->ret && x.end > ones[n]->call) {
          edges[n].push_back(k);
        }
      }
    }
    std::vector<int> owner(w->waits.size(), -1);
    u32 matched = 0;
    for (u32 n = 0; n < ones.size(); ++n) {
      std::vector<char> seen(w->waits.size(), 0);
      matched += Augment(n, edges, owner, seen);
    }
    MC_CHECK(matched == ones.size(),
             "condition_variable: %zu notify_one came while a fiber was blocked that is never woken, at most %u of them woke "
             "another one",
             ones.size(), matched);
  }
}

void Program(std::vector<Op>& ops, u32 n, bool root, u32 programs) {
  static constexpr i64 kNs[] = {50, 0, 1, 10, 100, 1000, -5, -1000000, 20000, 5};
  for (u32 i = 0; i < n; ++i) {
    static constexpr OpKind kKinds[] = {oAcquire, oAcquire, oAcquire, oAcquire, oAcquire, oRelease, oRelease, oYield,
                                        oSleep,   oWait,    oWait,    oNotify,  oNotify,  oSpawn,   oJoin};
    Op op{};
    op.kind = kKinds[P(15)];
    op.obj = P(3);
    op.how = P(8);
    switch (op.kind) {
      case oAcquire:
        op.obj %= static_cast<u32>(w->locks.size());
        op.how %= 4;
        op.exclusive = P(3) != 1;
        break;
      case oYield:
        op.how %= 3;
        break;
      default:
        break;
    }
    op.ns = kNs[P(10)];
    op.unit = P(2);
    op.body = root ? P(programs) : 1 + P(programs);
    ops.push_back(op);
  }
}

void Start() {
  // a lock of each kind
  const u32 nlocks = 1 + P(3);
  for (u32 i = 0; i < nlocks; ++i) {
    std::unique_ptr<ILock> l;
    switch (P(6)) {
      case 0:
        l = std::make_unique<Lock<yaclib_std::mutex>>("mutex", false);
        break;
      case 1:
        l = std::make_unique<Lock<yaclib_std::timed_mutex>>("timed_mutex", false);
        break;
      case 2:
        l = std::make_unique<Lock<yaclib_std::recursive_mutex>>("recursive_mutex", true);
        break;
      case 3:
        l = std::make_unique<Lock<yaclib_std::recursive_timed_mutex>>("recursive_timed_mutex", true);
        break;
      case 4:
        l = std::make_unique<Lock<yaclib_std::shared_mutex>>("shared_mutex", false);
        break;
      default:
        l = std::make_unique<Lock<yaclib_std::shared_timed_mutex>>("shared_timed_mutex", false);
        break;
    }
    mc::Describe("%s ", l->name);
    mc::Label(l->name);
    if (l->mutex() != nullptr) {
      const u32 n = P(3);
      for (u32 k = 0; k < n && w->cvs.size() < 2; ++k) {
        w->cvs.push_back({std::make_unique<yaclib_std::condition_variable>(), i});
        mc::Describe("cv ");
      }
    }
    w->locks.push_back(std::move(l));
  }
  const u32 fibers = 2 + P(3);
  w->programs.resize(fibers);
  for (u32 i = 1; i < fibers; ++i) {
    Program(w->programs[i], 1 + P(9), false, fibers - 1);
  }
  // the root starts everybody
  for (u32 i = 1; i < fibers; ++i) {
    Op op{};
    op.kind = oSpawn;
    op.how = P(4);
    op.body = i;
    w->programs[0].push_back(op);
  }
  Program(w->programs[0], P(6), false, fibers - 1);
  if (PB()) {
    for (u32 i = 1; i < fibers; ++i) {
      Op op{};
      op.kind = oJoin;
      w->programs[0].push_back(op);
    }
  }
  for (u32 i = 0; i < fibers; ++i) {
    mc::Describe("| %zu ops: ", w->programs[i].size());
    for (auto& op : w->programs[i]) {
      static constexpr const char* kNames[] = {"acquire", "release", "yield", "sleep", "wait", "notify", "spawn", "join"};
      mc::Describe("%s(%u,%u,%d,%lld) ", kNames[op.kind], op.obj, op.how, op.exclusive, (long long)op.ns);
    }
  }
}

}  // namespace

MC_SCENARIO(fiber_sync, "C18", 10) {
  World world;
  w = &world;
  auto env = fz::Configure();
  world.exact = env.exact;
  Start();
  fz::Scheduler scheduler;
  world.fibers.push_back(std::make_unique<Fiber>());
  auto* root = world.fibers[0].get();
  root->id = 0;
  yaclib_std::thread t{[root] {
    Body(*root, 0);
  }};
  CheckFailures();
  CheckParked();
  // let everybody go
  world.stop = true;
  for (u32 round = 0; round < 64; ++round) {
    bool all = true;
    for (auto& f : world.fibers) {
      all &= f->finished;
    }
    if (all) {
      break;
    }
    MC_CHECK(round != 63, "fibers are still blocked after notify_all on every condition variable");
    for (auto& cv : world.cvs) {
      cv.cv->notify_all();
    }
  }
  t.join();
  for (auto& c : world.children) {
    if (c->thread.joinable()) {
      c->thread.join();
    }
  }
  if (world.contended && world.fibers.size() > 1) {
    mc::NonTrivial();
  }
  w = nullptr;
}
