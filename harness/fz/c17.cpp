// C17: the programs
#include "c17.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/coro.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/inject.hpp>
#include <yaclib/fault/injector.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <yaclib_std/atomic>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/random>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <chrono>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <utility>

namespace c17 {
namespace {

using std::chrono::nanoseconds;

constexpr const char* kNames[] = {
  "start", "end", "rmw", "weak cas", "strong cas", "load/store", "flag", "mutex", "timed mutex", "shared", "shared lock",
  "recursive", "cv wait", "cv wait pred", "notify", "sleep", "sleep until", "yield", "random device", "spawn", "spawn detached",
  "tls", "injector off", "now", "run", "then", "wait for", "when all", "when any", "coro", "coro shared", "strand", "lazy",
  "contract", "wait group", "event", "job", "id"};
enum Kind : u8 {
  oStart,
  oEnd,
  oRmw,
  oWeakCas,
  oStrongCas,
  oLoadStore,
  oFlag,
  oMutex,
  oTimed,
  oShared,
  oSharedLock,
  oRecursive,
  oCvWait,
  oCvWaitPred,
  oNotify,
  oSleep,
  oSleepUntil,
  oYield,
  oRandom,
  oSpawn,
  oDetach,
  oTls,
  oDisable,
  oNow,
  oRun,
  oThen,
  oWaitFor,
  oWhenAll,
  oWhenAny,
  oCoro,
  oCoroShared,
  oStrand,
  oLazy,
  oContract,
  oWaitGroup,
  oEvent,
  oJob,
  oId,
};

int g_objects[8];
YACLIB_THREAD_LOCAL_PTR(int) t_ptr;
YACLIB_THREAD_LOCAL_PTR(int) t_init{&g_objects[7]};

using Id = decltype(yaclib::fault::Scheduler::GetId());

struct World {
  explicit World(const Phase& p, std::vector<Event>& e) : phase{p}, events{e} {
    base_time = yaclib::fault::Scheduler::GetScheduler()->GetTimeNs();
    base_count = yaclib::fiber::GetFaultRandomCount();
    base_injected = yaclib::GetInjectedCount();
  }

  const Phase& phase;
  std::vector<Event>& events;
  u64 base_time, base_count, base_injected;
  std::vector<Id> ids;
  bool join_all = false;
  std::vector<yaclib_std::thread> joinable;

  yaclib_std::atomic<u32> a[2] = {0, 0};
  yaclib_std::atomic_flag flag = ATOMIC_FLAG_INIT;
  yaclib_std::atomic<u32> detached = 0;
  yaclib_std::mutex m;
  yaclib_std::timed_mutex tm;
  yaclib_std::shared_timed_mutex sm;
  yaclib_std::recursive_mutex rm;
  yaclib_std::condition_variable cv;
  u32 tokens = 0;
  u32 counter = 0;
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  yaclib::IExecutorPtr strand;
  yaclib::Mutex<> cm;
  yaclib::SharedMutex<> csm;

  u32 Fiber() {
    const Id id = yaclib::fault::Scheduler::GetId();
    for (u32 i = 0; i < ids.size(); ++i) {
      if (ids[i] == id) {
        return i;
      }
    }
    ids.push_back(id);
    return static_cast<u32>(ids.size() - 1);
  }

  void Ev(u32 op, u64 value) {
    auto* s = yaclib::fault::Scheduler::GetScheduler();
    events.push_back({Fiber(), op, value, yaclib::fiber::GetFaultRandomCount() - base_count, s->GetTimeNs() - base_time,
                      yaclib::fiber::GetInjectorState(),
                      static_cast<u32>(yaclib::GetInjectedCount() - base_injected)});
  }
};

void Small(World& w, const Op& op, u32 salt) {
  for (u32 i = 0; i <= op.c % 3; ++i) {
    switch ((op.b + salt + i) % 6) {
      case 0:
        w.Ev(oRmw, w.a[op.a % 2].fetch_add(salt + 1));
        break;
      case 1:
        yaclib_std::this_thread::yield();
        w.Ev(oYield, 0);
        break;
      case 2:
        yaclib_std::this_thread::sleep_for(nanoseconds{op.ns});
        w.Ev(oSleep, 0);
        break;
      case 3: {
        std::lock_guard lock{w.m};
        w.Ev(oMutex, ++w.counter);
        break;
      }
      case 4:
        w.Ev(oLoadStore, w.a[op.a % 2].exchange(salt));
        break;
      default: {
        u32 expected = w.a[1].load(), fails = 0;
        while (!w.a[1].compare_exchange_weak(expected, expected + 1)) {
          ++fails;
        }
        w.Ev(oWeakCas, (u64{expected} << 32) | fails);
        break;
      }
    }
  }
}

yaclib::IExecutor& Exe(World& w, u32 i) {
  return i % 3 == 0 ? *w.strand : static_cast<yaclib::IExecutor&>(*w.pool);
}

yaclib::Future<u32> Coro(World& w, Op op, u32 salt) {
  co_await On(Exe(w, salt));
  w.Ev(oCoro, salt);
  for (u32 i = 0; i <= op.c % 3; ++i) {
    if ((op.b + i) % 3 == 0) {
      co_await yaclib::kYield;
    }
    if ((op.b + salt) % 2 == 0) {
      auto guard = co_await w.cm.Guard();
      w.Ev(oCoro, ++w.counter);
      Small(w, op, salt);
      co_await guard.Unlock();
    } else {
      co_await w.cm.Lock();
      w.Ev(oCoro, ++w.counter);
      if (i % 2 == 0) {
        w.cm.UnlockHere();
      } else {
        co_await w.cm.UnlockOn(Exe(w, salt + 1));
      }
    }
  }
  w.Ev(oCoro, 1000 + salt);
  co_return salt;
}

yaclib::Future<u32> CoroShared(World& w, Op op, u32 salt) {
  co_await On(Exe(w, salt + op.a));
  for (u32 i = 0; i <= op.c % 3; ++i) {
    if ((op.b + salt + i) % 3 != 0) {
      auto guard = co_await w.csm.GuardShared();
      w.Ev(oCoroShared, salt);
      Small(w, op, salt);
    } else {
      auto guard = co_await w.csm.Guard();
      w.Ev(oCoroShared, 100 + salt);
      Small(w, op, salt);
    }
  }
  auto f = yaclib::Run(Exe(w, salt), [&w, salt] {
    w.Ev(oCoroShared, 200 + salt);
    return salt;
  });
  const u32 r = co_await std::move(f);
  w.Ev(oCoroShared, 300 + r);
  co_return r;
}

yaclib::Future<u32> Awaiter(World& w, yaclib::OneShotEvent& event, u32 salt) {
  co_await event;
  w.Ev(oEvent, 10 + salt);
  co_return salt;
}

void Do(World& w, const Op& op, u32 thread);

void LibraryOp(World& w, const Op& op) {
  auto job = [&w, op](u32 salt) {
    return [&w, op, salt] {
      w.Ev(oJob, salt);
      Small(w, op, salt);
      return salt;
    };
  };
  const u32 k = 1 + op.b % 4;
  switch (op.kind) {
    case oRun: {
      u32 r = yaclib::Run(Exe(w, op.a), job(op.a)).Get().Ok();
      w.Ev(oRun, r);
      break;
    }
    case oThen: {
      auto f = yaclib::Run(Exe(w, op.a), job(1))
                 .Then(Exe(w, op.b),
                       [&w](u32 v) {
                         w.Ev(oThen, v);
                         return v + 1;
                       })
                 .ThenInline([&w](u32 v) {
                   w.Ev(oThen, 10 + v);
                   return v + 1;
                 })
                 .Then([&w, op](u32 v) {
                   w.Ev(oThen, 20 + v);
                   Small(w, op, v);
                   return v + 1;
                 });
      w.Ev(oThen, std::move(f).Get().Ok());
      break;
    }
    case oWaitFor: {
      std::vector<yaclib::FutureOn<u32>> fs;
      for (u32 i = 0; i < k; ++i) {
        fs.push_back(yaclib::Run(Exe(w, op.a + i), job(i)));
      }
      bool r = op.c % 2 == 0 ? yaclib::WaitFor(nanoseconds{op.ns}, fs.begin(), fs.end())
                             : yaclib::WaitUntil(yaclib_std::chrono::steady_clock::now() + nanoseconds{op.ns}, fs.begin(), fs.end());
      w.Ev(oWaitFor, r);
      yaclib::Wait(fs.begin(), fs.end());
      for (auto& f : fs) {
        w.Ev(oWaitFor, 10 + std::move(f).Touch().Ok());
      }
      break;
    }
    case oWhenAll: {
      std::vector<yaclib::FutureOn<u32>> fs;
      for (u32 i = 0; i < k; ++i) {
        fs.push_back(yaclib::Run(Exe(w, op.a + i), job(i)));
      }
      auto all = yaclib::WhenAll(fs.begin(), fs.size()).Get().Ok();
      for (auto v : all) {
        w.Ev(oWhenAll, v);
      }
      break;
    }
    case oWhenAny: {
      std::vector<yaclib::FutureOn<u32>> fs;
      yaclib::WaitGroup<> wg;
      wg.Add(k);
      for (u32 i = 0; i < k; ++i) {
        fs.push_back(yaclib::Run(Exe(w, op.a + i), [&wg, j = job(i)] {
          auto r = j();
          wg.Done();
          return r;
        }));
      }
      w.Ev(oWhenAny, yaclib::WhenAny(fs.begin(), fs.size()).Get().Ok());
      wg.Wait();
      w.Ev(oWhenAny, 100);
      break;
    }
    case oCoro:
    case oCoroShared: {
      std::vector<yaclib::Future<u32>> fs;
      for (u32 i = 0; i < k; ++i) {
        fs.push_back(op.kind == oCoro ? Coro(w, op, i) : CoroShared(w, op, i));
      }
      for (auto& f : fs) {
        w.Ev(op.kind, 2000 + std::move(f).Get().Ok());
      }
      break;
    }
    case oStrand: {
      yaclib::WaitGroup<> wg;
      wg.Add(k);
      for (u32 i = 0; i < k; ++i) {
        yaclib::Submit(*w.strand, [&wg, j = job(i)] {
          j();
          wg.Done();
        });
        w.Ev(oStrand, i);
      }
      wg.Wait();
      w.Ev(oStrand, 100);
      break;
    }
    case oLazy: {
      auto task = yaclib::Schedule(Exe(w, op.a), job(1)).Then(Exe(w, op.b), [&w](u32 v) {
        w.Ev(oLazy, v);
        return v + 1;
      });
      w.Ev(oLazy, 10);
      if (op.c % 2 == 0) {
        w.Ev(oLazy, 20 + std::move(task).Get().Ok());
      } else {
        w.Ev(oLazy, 30 + std::move(task).ToFuture(Exe(w, op.c)).Get().Ok());
      }
      break;
    }
    case oContract: {
      auto [f, p] = yaclib::MakeContract<u32>();
      yaclib_std::thread t{[&w, &op, p = std::move(p)]() mutable {
        Small(w, op, 1);
        std::move(p).Set(op.a);
        w.Ev(oContract, 1);
      }};
      auto g = std::move(f).ThenInline([&w](u32 v) {
        w.Ev(oContract, 10 + v);
        return v;
      });
      w.Ev(oContract, 20 + std::move(g).Get().Ok());
      t.join();
      break;
    }
    case oWaitGroup: {
      yaclib::WaitGroup<> wg;
      std::vector<yaclib::FutureOn<u32>> fs;
      for (u32 i = 0; i < k; ++i) {
        fs.push_back(yaclib::Run(Exe(w, op.a + i), job(i)));
      }
      wg.Attach(fs.begin(), fs.end());
      wg.Wait();
      w.Ev(oWaitGroup, 100);
      for (auto& f : fs) {
        w.Ev(oWaitGroup, std::move(f).Touch().Ok());
      }
      break;
    }
    default: {
      yaclib::OneShotEvent event;
      std::vector<yaclib::Future<u32>> fs;
      for (u32 i = 0; i < k; ++i) {
        fs.push_back(Awaiter(w, event, i));
      }
      yaclib_std::thread t{[&] {
        Small(w, op, 2);
        event.Set();
        w.Ev(oEvent, 1);
      }};
      event.Wait();
      w.Ev(oEvent, 2);
      t.join();
      for (auto& f : fs) {
        w.Ev(oEvent, 20 + std::move(f).Get().Ok());
      }
      break;
    }
  }
}

void Do(World& w, const Op& op, u32 thread) {
  const auto ns = nanoseconds{op.ns};
  switch (op.kind) {
    case oRmw: {
      auto& x = w.a[op.a % 2];
      w.Ev(oRmw, op.b % 4 == 0 ? x.fetch_add(op.c) : op.b % 4 == 1 ? x.fetch_or(op.c) : op.b % 4 == 2 ? x.fetch_sub(1) : x.exchange(op.c));
      break;
    }
    case oWeakCas: {
      for (u32 i = 0; i <= op.c % 3; ++i) {
        u32 expected = w.a[op.a % 2].load(std::memory_order_relaxed), fails = 0;
        while (!w.a[op.a % 2].compare_exchange_weak(expected, expected * 3 + op.b, std::memory_order_acq_rel,
                                                    std::memory_order_acquire)) {
          ++fails;
        }
        w.Ev(oWeakCas, (u64{expected} << 32) | fails);
      }
      break;
    }
    case oStrongCas: {
      u32 expected = op.b % 3;
      const bool r = w.a[op.a % 2].compare_exchange_strong(expected, op.c);
      w.Ev(oStrongCas, (u64{expected} << 1) | r);
      break;
    }
    case oLoadStore:
      w.Ev(oLoadStore, w.a[op.a % 2].load());
      w.a[op.b % 2].store(op.c);
      w.Ev(oLoadStore, 0);
      break;
    case oFlag:
      w.Ev(oFlag, w.flag.test_and_set());
      if (op.a % 2 == 0) {
        w.flag.clear();
      }
      break;
    case oMutex: {
      if (op.a % 3 == 0) {
        std::unique_lock lock{w.m, std::try_to_lock};
        w.Ev(oMutex, lock.owns_lock());
        break;
      }
      std::lock_guard lock{w.m};
      w.Ev(oMutex, ++w.counter);
      if (op.b % 2 == 0) {
        yaclib_std::this_thread::yield();
      }
      w.Ev(oMutex, w.counter);
      break;
    }
    case oTimed: {
      std::unique_lock lock{w.tm, std::defer_lock};
      const bool r = op.a % 2 == 0 ? lock.try_lock_for(ns) : lock.try_lock_until(yaclib_std::chrono::system_clock::now() + ns);
      w.Ev(oTimed, r);
      if (r && op.b % 2 == 0) {
        yaclib_std::this_thread::sleep_for(nanoseconds{op.c});
        w.Ev(oTimed, 2);
      }
      break;
    }
    case oShared: {
      std::shared_lock lock{w.sm, std::defer_lock};
      const bool r = op.a % 3 == 0 ? lock.try_lock() : op.a % 3 == 1 ? lock.try_lock_for(ns) : (lock.lock(), true);
      w.Ev(oShared, r);
      if (op.b % 2 == 0) {
        yaclib_std::this_thread::sleep_for(nanoseconds{op.c});
      }
      w.Ev(oShared, 2);
      break;
    }
    case oSharedLock: {
      std::unique_lock lock{w.sm, std::defer_lock};
      const bool r = op.a % 3 == 0 ? lock.try_lock() : op.a % 3 == 1 ? lock.try_lock_for(ns) : (lock.lock(), true);
      w.Ev(oSharedLock, r);
      if (op.b % 2 == 0) {
        yaclib_std::this_thread::yield();
      }
      w.Ev(oSharedLock, 2);
      break;
    }
    case oRecursive: {
      std::lock_guard lock{w.rm};
      w.Ev(oRecursive, ++w.counter);
      std::lock_guard lock2{w.rm};
      Small(w, op, thread);
      break;
    }
    case oCvWait: {
      std::unique_lock lock{w.m};
      const auto r = op.a % 2 == 0 ? w.cv.wait_for(lock, ns) : w.cv.wait_until(lock, yaclib_std::chrono::steady_clock::now() + ns);
      w.Ev(oCvWait, r == std::cv_status::timeout);
      break;
    }
    case oCvWaitPred: {
      std::unique_lock lock{w.m};
      u32 calls = 0;
      const bool r = w.cv.wait_for(lock, ns, [&] {
        ++calls;
        return w.tokens != 0;
      });
      w.tokens -= r ? 1 : 0;
      w.Ev(oCvWaitPred, (u64{calls} << 1) | r);
      break;
    }
    case oNotify: {
      {
        std::lock_guard lock{w.m};
        w.tokens += op.a % 2;
      }
      op.b % 2 == 0 ? w.cv.notify_one() : w.cv.notify_all();
      w.Ev(oNotify, w.tokens);
      break;
    }
    case oSleep:
      yaclib_std::this_thread::sleep_for(ns);
      w.Ev(oSleep, 0);
      break;
    case oSleepUntil:
      op.a % 2 == 0 ? yaclib_std::this_thread::sleep_until(yaclib_std::chrono::steady_clock::now() + ns)
                    : yaclib_std::this_thread::sleep_until(yaclib_std::chrono::system_clock::now() + ns);
      w.Ev(oSleepUntil, 0);
      break;
    case oYield:
      yaclib_std::this_thread::yield();
      w.Ev(oYield, 0);
      break;
    case oRandom: {
      yaclib_std::random::random_device rd;
      u64 v = rd();
      w.Ev(oRandom, v);
      if (op.a % 2 == 0) {
        w.Ev(oRandom, rd());
        rd.reset();
        w.Ev(oRandom, rd());
      }
      break;
    }
    case oSpawn: {
      std::vector<yaclib_std::thread> ts;
      for (u32 i = 0; i <= op.a % 2; ++i) {
        ts.emplace_back([&w, op, i] {
          w.Ev(oStart, i);
          Small(w, op, i);
          w.Ev(oEnd, i);
        });
      }
      Small(w, op, 5);
      for (auto& t : ts) {
        t.join();
        w.Ev(oSpawn, t.joinable());
      }
      break;
    }
    case oDetach: {
      w.detached.fetch_add(1);
      yaclib_std::thread t{[&w, op] {
        w.Ev(oStart, 9);
        Small(w, op, 9);
        w.Ev(oEnd, 9);
        w.detached.fetch_sub(1);
      }};
      // at the end of a phase in the middle of the program nobody else may be left
      w.join_all ? w.joinable.push_back(std::move(t)) : t.detach();
      w.Ev(oDetach, 0);
      break;
    }
    case oTls: {
      auto value = [](int* p) {
        return p == nullptr ? u64{99} : static_cast<u64>(p - g_objects);
      };
      w.Ev(oTls, value(t_ptr.Get()) * 100 + value(t_init.Get()));
      op.a % 2 == 0 ? t_ptr = &g_objects[op.b % 8] : t_init = &g_objects[op.b % 8];
      yaclib_std::this_thread::yield();
      w.Ev(oTls, value(t_ptr.Get()) * 100 + value(t_init.Get()));
      break;
    }
    case oDisable:
      yaclib::GetInjector()->Disable();
      w.Ev(oDisable, w.a[0].fetch_add(op.b));
      {
        // nothing that lets another fiber run: it could spin until this one goes on
        u32 expected = w.a[1].load();
        w.Ev(oDisable, w.a[1].compare_exchange_weak(expected, op.c));
      }
      yaclib::GetInjector()->Enable();
      w.Ev(oDisable, 1);
      break;
    case oNow:
      w.Ev(oNow, static_cast<u64>(std::chrono::duration_cast<nanoseconds>(yaclib_std::chrono::steady_clock::now().time_since_epoch()).count()) -
                   w.base_time);
      w.Ev(oNow, static_cast<u64>(std::chrono::duration_cast<nanoseconds>(yaclib_std::chrono::system_clock::now().time_since_epoch()).count()) -
                   w.base_time);
      break;
    default:
      if (w.pool != nullptr) {
        LibraryOp(w, op);
      } else {
        Small(w, op, thread);
      }
      break;
  }
}

void RunPhase(const Phase& phase, std::vector<Event>& events, bool join_all) {
  World w{phase, events};
  w.join_all = join_all;
  t_ptr = nullptr;
  t_init = &g_objects[7];
  w.Ev(oStart, 0);
  if (phase.pool != 0) {
    w.pool = yaclib::MakeFairThreadPool(phase.pool);
    w.strand = yaclib::MakeStrand(w.pool);
    if (phase.strand != 0) {
      w.strand = yaclib::MakeStrand(w.strand);
    }
  }
  auto body = [&w](u32 t) {
    w.Ev(oStart, 10 + t);
    for (u32 i = 0; i < w.phase.n[t]; ++i) {
      Do(w, w.phase.ops[t][i], t);
    }
    w.Ev(oEnd, 10 + t);
  };
  std::vector<yaclib_std::thread> threads;
  for (u32 t = 1; t < phase.threads; ++t) {
    threads.emplace_back(body, t);
  }
  body(0);
  for (auto& t : threads) {
    t.join();
    w.Ev(oId, t.joinable());
  }
  for (auto& t : w.joinable) {
    t.join();
  }
  while (w.detached.load() != 0) {
    yaclib_std::this_thread::sleep_for(nanoseconds{5});
  }
  if (w.pool != nullptr) {
    w.strand = nullptr;
    w.pool->Stop();
    w.pool->Wait();
  }
  w.Ev(oEnd, w.a[0].load() + w.a[1].load());
}

void Configure(const Config& c) {
  yaclib::SetFaultFrequency(c.freq);
  yaclib::SetFaultSleepTime(c.sleep);
  yaclib::fiber::SetFaultRandomListPick(c.pick);
  yaclib::fiber::SetFaultTickLength(c.tick);
  yaclib::SetAtomicFailFrequency(c.fail);
  yaclib::fiber::SetStackCacheSize(c.cache);
  yaclib::fiber::SetHardwareConcurrency(c.hardware);
  yaclib::fiber::SetStackSize(64);
}

// a fresh scheduler; everything that can run has run when this returns
template <typename Func>
void InScheduler(Func&& f) {
  auto scheduler = std::make_unique<yaclib::fault::Scheduler>();
  yaclib::fault::Scheduler::Set(scheduler.get());
  bool done = false;
  yaclib_std::thread root{[&] {
    f();
    done = true;
  }};
  if (done) {
    root.join();
    yaclib::fault::Scheduler::Set(nullptr);
  } else {
    mc::Fail("C18", "the program of C17 does not end");
  }
}

void Restore(const Program& p, Pair pair) {
  yaclib::SetSeed(p.seed);
  yaclib::fiber::ForwardToFaultRandomCount(pair.random_count);
  yaclib::fiber::SetInjectorState(pair.injector);
}

}  // namespace

const char* OpName(u32 op) noexcept {
  return op < sizeof(kNames) / sizeof(kNames[0]) ? kNames[op] : "?";
}

void Execute(const Program& p, How how, Pair pair, Outcome& out) {
  Configure(p.cfg);
  yaclib::GetInjector()->Enable();
  std::vector<Event> ignored;
  yaclib::SetSeed(how == kAfterOther ? p.seed + 17 : p.seed);
  yaclib::fiber::SetInjectorState(0);
  auto& first = how == kFull ? out.events[0] : ignored;
  auto between = [&] {
    switch (how) {
      case kFull:
        out.pair = {yaclib::fiber::GetFaultRandomCount(), yaclib::fiber::GetInjectorState()};
        break;
      case kForward:
        if (yaclib::fiber::GetFaultRandomCount() <= pair.random_count) {
          yaclib::fiber::ForwardToFaultRandomCount(pair.random_count);
          yaclib::fiber::SetInjectorState(pair.injector);
          break;
        }
        [[fallthrough]];
      default:
        Restore(p, pair);
        break;
    }
  };
  Phase small{};
  small.threads = 2;
  small.n[0] = small.n[1] = 1;
  small.ops[0][0].kind = small.ops[1][0].kind = oYield;
  auto before = [&] {
    if (how == kFull || how == kAfterOther) {
      for (u32 i = 0; i < p.warm; ++i) {
        yaclib_std::this_thread::yield();
      }
      RunPhase(p.phase[0], first, p.in_root != 0);
    } else if (how == kForward) {
      RunPhase(small, ignored, true);
    }
  };
  if (p.in_root) {
    InScheduler([&] {
      before();
      between();
      RunPhase(p.phase[1], out.events[1], p.in_root != 0);
    });
  } else {
    if (how != kRestore) {
      InScheduler(before);
    }
    between();
    InScheduler([&] {
      RunPhase(p.phase[1], out.events[1], p.in_root != 0);
    });
  }
}

}  // namespace c17
