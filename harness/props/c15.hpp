// C15: coroutine SharedMutex
#pragma once

#include "comutex.hpp"

#include <yaclib/coro/shared_mutex.hpp>

namespace {

using namespace h;

enum Kind {
  kLock,
  kGuard,
  kTryLock,
  kTryGuard,
  kDeferGuard,
  kLockAdopt,
  kShared,
  kSharedGuard,
  kTryShared,
  kTrySharedGuard,
  kDeferShared,
  kSharedAdopt,
  kKinds
};
const char* const kName[] = {"Lock",      "Guard",       "TryLock",      "TryGuard",       "guard.Lock",   "Lock+adopt",
                             "LockShared", "GuardShared", "TryLockShared", "TryGuardShared", "sharedguard.Lock", "LockShared+adopt"};

struct Round {
  mc::u32 kind = 0;
  mc::u32 unlock = 0;
  mc::u32 inside = 0;
  mc::u32 hop = 0;
  mc::u32 hop_in = 0;
};

struct Plan {
  mc::u32 start = 0;
  bool lazy = false;
  std::vector<Round> rounds;
};

template <bool FIFO, bool ReadersFIFO>
struct World {
  using M = yaclib::SharedMutex<FIFO, ReadersFIFO>;
  M m;
  Counter writers{0};
  Counter readers{0};
  Counter finished{0};
  Counter overlaps{0};
  int data = 0;    // plain: written by writers, read by everybody inside
  int grants = 0;  // plain, writers only
  Counter shared_grants{0};
  Counter waited{0};
  bool only_readers = true;
  Places* places = nullptr;

  void Enter(bool shared, const char* how) {
    if (shared) {
      const int r = Inc(readers);
      MC_CHECK(Ld(writers) == 0, "%s: a reader is inside together with a writer", how);
      if (r > 1) {
        Inc(overlaps);
      }
      const int v = data;
      mc::Point("reading");
      MC_CHECK(data == v && Ld(writers) == 0, "%s: a writer entered while a reader is inside", how);
      Inc(shared_grants);
    } else {
      MC_CHECK(Inc(writers) == 1, "%s: two writers are inside", how);
      MC_CHECK(Ld(readers) == 0, "%s: a writer is inside together with a reader", how);
      const int v = data;
      mc::Point("writing");
      MC_CHECK(data == v && Ld(writers) == 1 && Ld(readers) == 0, "%s: somebody entered while a writer is inside", how);
      data = v + 1;
      ++grants;
    }
  }
  void Leave(bool shared) {
    mc::Point("leaving");
    if (shared) {
      MC_CHECK(Ld(writers) == 0, "a writer entered while a reader is inside");
      Dec(readers);
    } else {
      MC_CHECK(Dec(writers) == 0 && Ld(readers) == 0, "somebody entered while a writer is inside");
    }
  }
};

inline void Where(int want, const char* what) {
  if (want >= 0) {
    MC_CHECK_TAG("+C13,C05", CurExe() == want, "%s: runs on executor %d instead of %d", what, CurExe(), want);
  }
}

template <typename W>
struct Body {
  using M = typename W::M;
  using U = yaclib::UniqueGuard<M>;
  using G = yaclib::SharedGuard<M>;

  template <typename Guard>
  static void Unlock(M& m, Guard& g, mc::u32 how) {
    constexpr bool kShared = std::is_same_v<Guard, G>;
    switch (how % 6) {
      case 0:
        break;  // destructor
      case 1:
        g.UnlockHere();
        MC_CHECK(!g, "a guard owns the lock after UnlockHere");
        break;
      case 2: {
        auto g2 = std::move(g);
        MC_CHECK(g2 && !g, "a moved guard still owns the lock");
      } break;
      case 3:
        MC_CHECK(g.Release() == &m && !g, "Release of a guard");
        if constexpr (kShared) {
          m.UnlockHereShared();
        } else {
          m.UnlockHere();
        }
        break;
      case 4: {
        // a guard that holds a lock is assigned: both locks have to be released by somebody
        M extra;
        {
          Guard g2{extra, std::try_to_lock};
          MC_CHECK(g2, "a lock of a free mutex failed");
          g = std::move(g2);
        }
        MC_CHECK(g && g.Mutex() == &extra, "move assignment of a guard that holds a lock");
        MC_CHECK(!extra.TryLock(), "TryLock succeeded while the mutex is held");
        g.UnlockHere();
        MC_CHECK(extra.TryLock(), "the lock of a move assigned guard was not released");
        extra.UnlockHere();
      } break;
      default: {
        Guard g2;
        g2.Swap(g);
        MC_CHECK(g2 && !g && g2.Mutex() == &m, "Swap of a guard");
        g = std::move(g2);
        MC_CHECK(g && !g2, "move assignment of a guard");
      } break;
    }
  }

  template <typename Ret>
  static Ret Run(W* w, Plan plan) {
    Tok tok;
    auto& places = *w->places;
    int id = -1;
    if (plan.start != 0) {
      auto& p = places.all[(plan.start - 1) % places.all.size()];
      co_await yaclib::On(*p.exe);
      id = p.id;
      Where(id, "On");
    }
    for (auto& rd : plan.rounds) {
      if (rd.hop != 0) {
        auto& p = places.all[(rd.hop - 1) % places.all.size()];
        co_await yaclib::On(*p.exe);
        id = p.id;
        Where(id, "On");
      }
      auto& m = w->m;
      const char* name = kName[rd.kind];
#define LOCKED(shared)                                                                        \
  w->Enter(shared, name);                                                                     \
  Where(id, name);                                                                            \
  if (rd.inside == 1) {                                                                       \
    co_await yaclib::kYield;                                                                  \
    Where(id, "Yield");                                                                       \
  } else if (rd.inside == 2) {                                                                \
    auto& p = places.all[rd.hop_in % places.all.size()];                                      \
    co_await yaclib::On(*p.exe);                                                              \
    id = p.id;                                                                                \
    Where(id, "On");                                                                          \
  } else if (rd.inside == 3) {                                                                \
    MC_CHECK(!m.TryLock(), "TryLock succeeded while somebody is inside");                     \
    auto g = m.TryGuard();                                                                    \
    MC_CHECK(!g, "TryGuard succeeded while somebody is inside");                              \
    if (!(shared)) {                                                                          \
      MC_CHECK(!m.TryLockShared(), "TryLockShared succeeded while a writer is inside");       \
      auto g = m.TryGuardShared();                                                            \
      MC_CHECK(!g, "TryGuardShared succeeded while a writer is inside");                      \
    } else if (m.TryLockShared()) {                                                           \
      m.UnlockHereShared();                                                                   \
    } else {                                                                                  \
      MC_CHECK(!w->only_readers, "TryLockShared failed without any writer");                  \
    }                                                                                         \
  }                                                                                           \
  w->Leave(shared);
      switch (rd.kind) {
        case kLock: {
          co_await m.Lock();
          LOCKED(false)
          m.UnlockHere();
        } break;
        case kGuard: {
          auto g = co_await m.Guard();
          MC_CHECK(g && g.OwnsLock() && g.Mutex() == &m, "%s: the guard does not own the lock", name);
          LOCKED(false)
          Unlock(m, g, rd.unlock);
        } break;
        case kTryLock: {
          if (m.TryLock()) {
            LOCKED(false)
            m.UnlockHere();
          }
        } break;
        case kTryGuard: {
          U g;
          if (rd.hop_in % 2 == 0) {
            g = m.TryGuard();
          } else {
            g = U{m, std::defer_lock};
            const bool ok = g.TryLock();
            MC_CHECK(ok == g.OwnsLock(), "guard.TryLock() disagrees with OwnsLock()");
          }
          if (g) {
            LOCKED(false)
            Unlock(m, g, rd.unlock);
          }
        } break;
        case kDeferGuard: {
          U g{m, std::defer_lock};
          MC_CHECK(!g, "a deferred guard owns the lock");
          co_await g.Lock();
          LOCKED(false)
          Unlock(m, g, rd.unlock);
        } break;
        case kLockAdopt: {
          co_await m.Lock();
          U g{m, std::adopt_lock};
          LOCKED(false)
          Unlock(m, g, rd.unlock);
        } break;
        case kShared: {
          co_await m.LockShared();
          LOCKED(true)
          m.UnlockHereShared();
        } break;
        case kSharedGuard: {
          auto g = co_await m.GuardShared();
          MC_CHECK(g && g.OwnsLock() && g.Mutex() == &m, "%s: the guard does not own the lock", name);
          LOCKED(true)
          Unlock(m, g, rd.unlock);
        } break;
        case kTryShared: {
          if (m.TryLockShared()) {
            LOCKED(true)
            m.UnlockHereShared();
          } else {
            MC_CHECK(!w->only_readers, "TryLockShared failed without any writer");
          }
        } break;
        case kTrySharedGuard: {
          G g;
          if (rd.hop_in % 2 == 0) {
            g = m.TryGuardShared();
          } else {
            g = G{m, std::defer_lock};
            const bool ok = g.TryLock();
            MC_CHECK(ok == g.OwnsLock(), "guard.TryLock() disagrees with OwnsLock()");
          }
          if (g) {
            LOCKED(true)
            Unlock(m, g, rd.unlock);
          } else {
            MC_CHECK(!w->only_readers, "TryGuardShared failed without any writer");
          }
        } break;
        case kDeferShared: {
          G g{m, std::defer_lock};
          MC_CHECK(!g, "a deferred guard owns the lock");
          co_await g.Lock();
          LOCKED(true)
          Unlock(m, g, rd.unlock);
        } break;
        default: {
          co_await m.LockShared();
          G g{m, std::adopt_lock};
          LOCKED(true)
          Unlock(m, g, rd.unlock);
        } break;
      }
#undef LOCKED
    }
    std::ignore = tok.Alive();
    Inc(w->finished);
    co_return {};
  }
};

template <bool FIFO, bool ReadersFIFO>
void Program() {
  Quiet quiet;
  std::string d = std::string{FIFO ? "FIFO" : "not FIFO"} + (ReadersFIFO ? ", readers FIFO; " : "; ");
  Places places{d};
  {
    using W = World<FIFO, ReadersFIFO>;
    W w;
    w.places = &places;
    const int n = 1 + static_cast<int>(P(5));
    // who writes: nobody / one / mixed
    const mc::u32 mix = P(4);
    std::vector<Plan> plans;
    int must_w = 0, may_w = 0, must_r = 0, may_r = 0;
    for (int i = 0; i < n; ++i) {
      auto& p = plans.emplace_back();
      p.start = P(4);
      p.lazy = P(4) == 3;
      const mc::u32 rounds = 1 + P(3);
      d += "co(";
      for (mc::u32 k = 0; k < rounds; ++k) {
        auto& rd = p.rounds.emplace_back();
        rd.kind = P(kKinds);
        if ((mix == 1 || (mix == 2 && i > 0)) && rd.kind < kShared) {
          rd.kind += kShared;
        }
        rd.unlock = P(6);
        rd.inside = P(4);
        rd.hop = P(6) < 4 ? 0 : 1 + P(4);
        rd.hop_in = P(4);
        const bool shared = rd.kind >= kShared;
        const mc::u32 base = rd.kind % kShared;
        const bool may = base == kTryLock || base == kTryGuard;
        (shared ? may_r : may_w) += may;
        (shared ? must_r : must_w) += !may;
        w.only_readers &= shared;
        d += std::string{kName[rd.kind]} + " ";
        mc::Label(kName[rd.kind]);
      }
      d += ") ";
    }
    for (auto& p : plans) {
      for (auto& rd : p.rounds) {
        if (rd.inside == 3) {
          w.only_readers = false;  // tries to write
        }
      }
    }
    mc::Describe("%s", d.c_str());
    std::vector<Thread> ts;
    std::deque<std::optional<Future<void, Err>>> slots;
    for (auto& p : plans) {
      auto& slot = slots.emplace_back();
      const bool thread = PB();
      auto go = [&w, &slot, &p] {
        if (p.lazy) {
          slot.emplace(Body<W>::template Run<Task<void, Err>>(&w, p).ToFuture());
        } else {
          slot.emplace(Body<W>::template Run<Future<void, Err>>(&w, p));
        }
      };
      if (thread) {
        ts.emplace_back(go);
      } else {
        go();
        MC_CHECK(!w.only_readers || p.start != 0 || p.rounds[0].hop != 0 || p.rounds[0].inside != 0 || p.rounds.size() > 1 ||
                   slot->Ready(),
                 "a reader waits although there is no writer");
      }
    }
    for (auto& t : ts) {
      t.join();
    }
    for (auto& s : slots) {
      auto r = std::move(*s).Get();
      MC_CHECK(r, "a coroutine failed");
    }
    MC_CHECK(Ld(w.finished) == n, "%d of %d coroutines finished", Ld(w.finished), n);
    places.Finish();
    MC_CHECK(w.data == w.grants, "what one writer wrote is lost: %d != %d", w.data, w.grants);
    MC_CHECK(w.grants >= must_w && w.grants <= must_w + may_w, "%d exclusive grants for %d + %d requests", w.grants, must_w, may_w);
    MC_CHECK(Ld(w.shared_grants) >= must_r && Ld(w.shared_grants) <= must_r + may_r, "%d shared grants for %d + %d requests",
             Ld(w.shared_grants), must_r, may_r);
    // the lock has to be free and usable: a counter that drifted shows up here
    auto& m = w.m;
    const mc::u32 again = 1 + P(2);
    for (mc::u32 i = 0; i < again; ++i) {
      MC_CHECK(m.TryLock(), "TryLock failed on a free mutex");
      MC_CHECK(!m.TryLock() && !m.TryLockShared(), "Try* succeeded while a writer holds the mutex");
      m.UnlockHere();
      MC_CHECK(m.TryLockShared() && m.TryLockShared(), "TryLockShared failed without any writer");
      MC_CHECK(!m.TryLock(), "TryLock succeeded while readers hold the mutex");
      m.UnlockHereShared();
      MC_CHECK(!m.TryLock(), "TryLock succeeded while a reader holds the mutex");
      m.UnlockHereShared();
    }
    // a second, sequential life: a stale credit or debt would let somebody in
    {
      std::vector<int> order;
      auto reader = [](W* w, std::vector<int>* o, int id) -> Future<void, Err> {
        co_await w->m.LockShared();
        o->push_back(id);
        co_return {};
      };
      auto writer = [](W* w, std::vector<int>* o, int id) -> Future<void, Err> {
        co_await w->m.Lock();
        o->push_back(id);
        co_return {};
      };
      MC_CHECK(m.TryLock(), "TryLock failed on a free mutex");
      auto r1 = reader(&w, &order, 1);
      MC_CHECK(!r1.Ready(), "a stale reader credit lets a reader in next to a writer");
      auto r2 = reader(&w, &order, 2);
      auto w3 = writer(&w, &order, 3);
      MC_CHECK(order.empty(), "somebody entered while a writer is inside");
      m.UnlockHere();
      bool writer_first = !order.empty() && order[0] == 3;
      if (writer_first) {
        MC_CHECK(order.size() == 1, "readers entered together with a writer");
        m.UnlockHere();
        MC_CHECK(order.size() == 3, "readers were forgotten");
        m.UnlockHereShared();
        m.UnlockHereShared();
      } else {
        MC_CHECK(order.size() == 2, "after a writer left %d of 2 readers entered", static_cast<int>(order.size()));
        m.UnlockHereShared();
        MC_CHECK(order.size() == 2, "the writer entered while a reader is inside");
        m.UnlockHereShared();
        MC_CHECK(order.size() == 3, "the writer was forgotten");
        m.UnlockHere();
      }
      MC_CHECK(r1.Ready() && r2.Ready() && w3.Ready(), "a request was not granted");
      MC_CHECK(m.TryLock(), "TryLock failed on a free mutex");
      m.UnlockHere();
    }
    if (n > 1 && mc::Preemptions() != 0) {
      mc::NonTrivial();
    }
  }
}

}  // namespace
