// C14: coroutine Mutex
#pragma once

#include "comutex.hpp"

#include <yaclib/coro/mutex.hpp>

namespace {

using namespace h;

enum LockKind { kLock, kGuard, kSticky, kTryLock, kTryGuard, kDeferGuard, kLockAdopt, kStickyDefer, kLockKinds };
const char* const kLName[] = {"Lock", "Guard", "GuardSticky", "TryLock", "TryGuard", "guard.Lock", "Lock+adopt", "sticky.Lock"};

struct Round {
  mc::u32 lock = 0;
  mc::u32 unlock = 0;
  mc::u32 inside = 0;   // what happens in the critical section
  mc::u32 to = 0;       // target of UnlockOn
  mc::u32 hop = 0;      // On before the round: 0 no, otherwise place hop - 1
  mc::u32 hop_in = 0;   // On inside the critical section
  bool timed = false;
  Req* req = nullptr;
};

struct Plan {
  mc::u32 start = 0;  // 0: no executor
  bool lazy = false;
  bool own_strand = false;  // starts on a strand nobody else refers to
  std::vector<Round> rounds;
};

template <bool Batching, bool FIFO>
struct World {
  using M = yaclib::Mutex<Batching, FIFO>;
  static constexpr bool kBatching = Batching;
  M m;
  Counter holders{0};
  Counter finished{0};
  int data = 0;    // plain: only the lock orders it
  int grants = 0;  // plain
  std::deque<Req> reqs;
  Places* places = nullptr;

  void Enter(Req* r, const char* how) {
    MC_CHECK(Inc(holders) == 1, "%s: two coroutines are inside the critical section", how);
    r->grant = Inc(g_clock);
    const int v = data;
    mc::Point("inside");
    MC_CHECK(data == v && Ld(holders) == 1, "%s: somebody else entered the critical section", how);
    data = v + 1;
    ++grants;
  }
  void Leave() {
    mc::Point("leaving");
    MC_CHECK(Dec(holders) == 0, "two coroutines are inside the critical section");
  }
};

inline int IdOf(const Places& p, const IExecutor* e) {
  for (auto& x : p.all) {
    if (x.exe == e) {
      return x.id;
    }
  }
  return -1;
}

inline void Where(int want, const char* what) {
  if (want >= 0) {
    MC_CHECK_TAG("+C13,C05", CurExe() == want, "%s: runs on executor %d instead of %d", what, CurExe(), want);
  }
}

// awaits with or without the arrival clock
#define TIMED_AWAIT(expr)                                       \
  (rd.timed ? co_await Timed<decltype(expr)>{expr, r} : co_await expr)

template <typename W>
struct Body {
  // Returns the number of critical sections it had
  template <typename Ret>
  static Ret Run(W* w, Plan plan) {
    Tok tok;
    auto& places = *w->places;
    int id = -1;  // where this coroutine has to be, -1 unknown
    if (plan.own_strand) {
      co_await yaclib::On(*yaclib::MakeStrand(places.all[0].exe));
    } else if (plan.start != 0) {
      auto& p = places.all[(plan.start - 1) % places.all.size()];
      co_await yaclib::On(*p.exe);
      id = p.id;
      Where(id, "On");
    }
    for (auto& rd : plan.rounds) {
      if (rd.hop != 0) {
        auto& p = places.all[(rd.hop - 1) % places.all.size()];
        co_await yaclib::On(*p.exe);
        id = p.id;
        Where(id, "On");
      }
      auto* r = rd.req;
      auto& to = places.all[rd.to % places.all.size()];
      auto& m = w->m;
      const char* name = kLName[rd.lock];
#define LOCKED(suspendable)                                                              \
  w->Enter(r, name);                                                                     \
  if (W::kBatching && (r->tried || !rd.timed)) {                                         \
    id = -1;                                                                             \
  }                                                                                      \
  Where(id, "Lock");                                                                     \
  if ((suspendable) && rd.inside == 1) {                                                 \
    co_await yaclib::kYield;                                                             \
    Where(id, "Yield");                                                                  \
  } else if ((suspendable) && rd.inside == 2) {                                          \
    auto& p = places.all[rd.hop_in % places.all.size()];                                 \
    co_await yaclib::On(*p.exe);                                                         \
    id = p.id;                                                                           \
    Where(id, "On");                                                                     \
  } else if (rd.inside == 3) {                                                           \
    MC_CHECK(!m.TryLock(), "TryLock succeeded while the mutex is held");                 \
    auto g = m.TryGuard();                                                               \
    MC_CHECK(!g && !g.OwnsLock(), "TryGuard succeeded while the mutex is held");         \
  }                                                                                      \
  w->Leave();
      switch (rd.lock) {
        case kLock: {
          TIMED_AWAIT(m.Lock());
          LOCKED(true)
          switch (rd.unlock % 3) {
            case 0:
              m.UnlockHere();
              break;
            case 1:
              co_await m.Unlock();
              if (W::kBatching) {
                id = -1;
              }
              break;
            default:
              co_await m.UnlockOn(*to.exe);
              id = to.id;
              Where(id, "UnlockOn");
              break;
          }
        } break;
        case kGuard:
        case kTryGuard:
        case kDeferGuard:
        case kLockAdopt: {
          yaclib::UniqueGuard<typename W::M> g;
          if (rd.lock == kGuard) {
            g = TIMED_AWAIT(m.Guard());
          } else if (rd.lock == kTryGuard) {
            r->begin = Inc(g_clock);
            if (rd.hop_in % 2 == 0) {
              g = m.TryGuard();
            } else {
              g = yaclib::UniqueGuard<typename W::M>{m, std::defer_lock};
              MC_CHECK(!g, "a deferred guard owns the lock");
              const bool ok = g.TryLock();
              MC_CHECK(ok == g.OwnsLock(), "guard.TryLock() disagrees with OwnsLock()");
            }
            if (!g) {
              break;
            }
          } else if (rd.lock == kDeferGuard) {
            g = yaclib::UniqueGuard<typename W::M>{m, std::defer_lock};
            TIMED_AWAIT(g.Lock());
          } else {
            TIMED_AWAIT(m.Lock());
            g = yaclib::UniqueGuard<typename W::M>{m, std::adopt_lock};
          }
          MC_CHECK(g && g.OwnsLock() && g.Mutex() == &m, "%s: the guard does not own the lock", name);
          LOCKED(true)
          switch (rd.unlock % 8) {
            case 0:
              break;  // destructor
            case 1:
              g.UnlockHere();
              MC_CHECK(!g, "a guard owns the lock after UnlockHere");
              break;
            case 2:
              co_await g.Unlock();
              MC_CHECK(!g, "a guard owns the lock after Unlock");
              if (W::kBatching) {
                id = -1;
              }
              break;
            case 3:
              co_await g.UnlockOn(*to.exe);
              MC_CHECK(!g, "a guard owns the lock after UnlockOn");
              id = to.id;
              Where(id, "UnlockOn");
              break;
            case 4: {
              auto g2 = std::move(g);
              MC_CHECK(g2 && !g, "a moved guard still owns the lock");
            } break;
            case 5:
              MC_CHECK(g.Release() == &m && !g, "Release of a guard");
              m.UnlockHere();
              break;
            case 6: {
              // a guard that holds a lock is assigned: both locks have to be released by somebody
              typename W::M extra;
              {
                auto g2 = extra.TryGuard();
                MC_CHECK(g2, "TryGuard failed on a free mutex");
                g = std::move(g2);
              }
              MC_CHECK(g && g.Mutex() == &extra, "move assignment of a guard that holds a lock");
              MC_CHECK(!extra.TryLock(), "TryLock succeeded while the mutex is held");
              g.UnlockHere();
              MC_CHECK(extra.TryLock(), "the lock of a move assigned guard was not released");
              extra.UnlockHere();
            } break;
            default: {
              yaclib::UniqueGuard<typename W::M> g2;
              g2.Swap(g);
              MC_CHECK(g2 && !g, "Swap of a guard");
              g = std::move(g2);
              MC_CHECK(g && !g2, "move assignment of a guard");
            } break;
          }
        } break;
        case kSticky:
        case kStickyDefer: {
          auto* own = &(co_await yaclib::CurrentExecutor());
          const int back = IdOf(places, own);
          std::optional<yaclib::StickyGuard<typename W::M>> g;
          if (rd.lock == kSticky) {
            g.emplace(TIMED_AWAIT(m.GuardSticky()));
          } else {
            g.emplace(m, std::defer_lock);
            TIMED_AWAIT(g->Lock());
          }
          MC_CHECK(*g && g->OwnsLock() && g->Mutex() == &m, "%s: the guard does not own the lock", name);
          const bool suspendable = rd.inside != 2;
          LOCKED(suspendable)
          switch (rd.unlock % 6) {
            case 0:
              break;
            case 1:
              g->UnlockHere();
              MC_CHECK(!*g, "a sticky guard owns the lock after UnlockHere");
              break;
            case 2: {
              auto g2 = std::move(*g);
              MC_CHECK(g2 && !*g, "a moved sticky guard still owns the lock");
              co_await g2.Unlock();
              MC_CHECK_TAG("+C13,C05", &(co_await yaclib::CurrentExecutor()) == own, "StickyGuard: the coroutine is left on another executor");
              id = back;
              Where(id, "moved StickyGuard::Unlock");
            } break;
            case 3: {
              typename W::M extra;
              auto* own2 = &(co_await yaclib::CurrentExecutor());
              {
                auto g2 = co_await extra.GuardSticky();
                MC_CHECK(g2, "GuardSticky failed on a free mutex");
                *g = std::move(g2);
              }
              MC_CHECK(*g && g->Mutex() == &extra, "move assignment of a sticky guard that holds a lock");
              co_await g->Unlock();
              MC_CHECK_TAG("+C13,C05", &(co_await yaclib::CurrentExecutor()) == own2, "StickyGuard: the coroutine is left on another executor");
              MC_CHECK(extra.TryLock(), "the lock of a move assigned sticky guard was not released");
              extra.UnlockHere();
            } break;
            default:
              co_await g->Unlock();
              MC_CHECK(!*g, "a sticky guard owns the lock after Unlock");
              MC_CHECK_TAG("+C13,C05", &(co_await yaclib::CurrentExecutor()) == own, "StickyGuard: the coroutine is left on another executor");
              id = back;
              Where(id, "StickyGuard::Unlock");
              break;
          }
        } break;
        default: {  // kTryLock
          r->begin = Inc(g_clock);
          if (m.TryLock()) {
            LOCKED(true)
            m.UnlockHere();
          }
        } break;
      }
#undef LOCKED
    }
    std::ignore = tok.Alive();
    Inc(w->finished);
    co_return {};
  }
};

template <bool Batching, bool FIFO>
void Program() {
  Quiet quiet;
  St(g_clock, 0);
  std::string d = std::string{Batching ? "batching" : "no batching"} + (FIFO ? ", FIFO; " : "; ");
  Places places{d};
  {
    using W = World<Batching, FIFO>;
    W w;
    w.places = &places;
    const int n = 1 + static_cast<int>(P(5));
    std::vector<Plan> plans;
    std::size_t tries = 0;
    std::size_t total = 0;
    for (int i = 0; i < n; ++i) {
      auto& p = plans.emplace_back();
      p.start = P(4);
      p.lazy = P(4) == 3;
      p.own_strand = P(5) == 4;
      const mc::u32 rounds = 1 + P(3);
      d += "co(";
      for (mc::u32 k = 0; k < rounds; ++k) {
        auto& rd = p.rounds.emplace_back();
        rd.lock = P(kLockKinds);
        rd.unlock = P(24);
        rd.inside = P(4);
        rd.to = P(4);
        rd.hop = P(6) < 4 ? 0 : 1 + P(4);
        rd.hop_in = P(4);
        rd.timed = P(4) != 3;
        rd.req = &w.reqs.emplace_back();
        ++total;
        tries += rd.lock == kTryLock || rd.lock == kTryGuard;
        d += std::string{kLName[rd.lock]} + "/" + std::to_string(rd.unlock) + " ";
        mc::Label(kLName[rd.lock]);
      }
      d += ") ";
    }
    mc::Describe("%s", d.c_str());
    std::vector<Thread> ts;
    std::deque<Future<void, Err>> fs;
    std::deque<std::optional<Future<void, Err>>> slots;
    for (auto& p : plans) {
      auto& slot = slots.emplace_back();
      const bool thread = PB();
      auto go = [&w, &slot, &p] {
        if (p.lazy) {
          slot.emplace(Body<W>::template Run<Task<void, Err>>(&w, p).ToFuture());
        } else {
          slot.emplace(Body<W>::template Run<Future<void, Err>>(&w, p));
        }
      };
      if (thread) {
        ts.emplace_back(go);
      } else {
        go();
      }
    }
    for (auto& t : ts) {
      t.join();
    }
    for (auto& s : slots) {
      auto r = std::move(*s).Get();
      MC_CHECK(r, "a coroutine failed");
    }
    MC_CHECK(Ld(w.finished) == n, "%d of %d coroutines finished", Ld(w.finished), n);
    places.Finish();
    MC_CHECK(w.data == w.grants, "what one critical section wrote is lost: %d != %d", w.data, w.grants);
    MC_CHECK(w.grants + static_cast<int>(tries) >= static_cast<int>(total) && w.grants <= static_cast<int>(total),
             "%d grants for %d requests (%d of them may fail)", w.grants, static_cast<int>(total), static_cast<int>(tries));
    bool any = false;
    for (auto& a : w.reqs) {
      const int suspended = Ld(a.suspended);
      any |= suspended != 0;
      if (!FIFO || suspended == 0) {
        continue;
      }
      for (auto& b : w.reqs) {
        MC_CHECK(b.grant == 0 || b.begin < suspended || b.begin == 0 || b.grant > a.grant,
                 "FIFO: a request that arrived later was granted first");
      }
    }
    MC_CHECK(w.m.TryLock(), "TryLock failed on a free mutex");
    MC_CHECK(!w.m.TryLock(), "TryLock succeeded on a held mutex");
    w.m.UnlockHere();
    {
      auto g = w.m.TryGuard();
      MC_CHECK(g, "TryGuard failed on a free mutex");
    }
    if (any && mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }
}

}  // namespace
