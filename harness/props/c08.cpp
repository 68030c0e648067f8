// C08: FairThreadPool: accepted jobs all run, rejected ones drop, Wait means done
#include "common.hpp"

#include <yaclib/async/run.hpp>

#include <deque>

namespace {
using namespace h;

enum Stop8 { kStop8, kSoft, kHard };

struct J {
  CJob job;
  int begin = 0, end = 0;
  int start = 0, finish = 0, drop = 0;
  std::vector<int> children;
  int stop_inside = -1;  // calls a stop function from the job
  bool wait_gate = false, open_gate = false;
  bool functor = false;
  struct Prog* prog = nullptr;
};

struct StopCall {
  int kind;
  int begin, end;
};

struct Prog {
  yaclib::IntrusivePtr<yaclib::FairThreadPool> owned;
  yaclib::FairThreadPool* pool = nullptr;
  std::deque<J> jobs;
  Counter ts{1};
  Counter running{0};
  std::vector<StopCall> stops;  // guarded by m
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
  bool open = false;
  int single_acc = 0;  // plain memory touched by every job when there is one worker
  bool single = false;

  void Submit(int i) {
    auto& j = jobs[i];
    j.begin = Inc(ts);
    if (j.functor) {
      struct Alive {
        explicit Alive(J* x) : p{x} {
        }
        Alive(Alive&& o) noexcept : p{std::exchange(o.p, nullptr)} {
        }
        ~Alive() {
          if (p != nullptr && Ld(p->job.calls) == 0) {
            p->drop = Inc(p->prog->ts);
            if (Inc(p->job.drops) != 1) {
              mc::Fail("", "job finished twice (Drop)");
            }
          }
        }
        J* p;
      };
      yaclib::Submit(*pool, [&j, a = Alive{&j}] {
        if (Inc(j.job.calls) + Ld(j.job.drops) != 1) {
          mc::Fail("", "job finished twice (Call)");
        }
        j.prog->Body(j);
      });
    } else {
      pool->Submit(j.job);
    }
    j.end = Inc(ts);
  }
  void CallStop(int kind) {
    StopCall c{kind, Inc(ts), 1 << 30};
    std::size_t at;
    {
      std::lock_guard lock{m};
      at = stops.size();
      stops.push_back(c);
    }
    if (kind == kStop8) {
      pool->Stop();
    } else if (kind == kSoft) {
      pool->SoftStop();
    } else {
      pool->HardStop();
    }
    int e = Inc(ts);
    std::lock_guard lock{m};
    stops[at].end = e;
  }
  void Body(J& j) {
    j.start = Inc(ts);
    if (Inc(running) != 1 && single) {
      mc::Fail("", "two jobs run at the same time on a single worker");
    }
    if (single) {
      single_acc += 1;
    }
    Point("in job");
    if (j.open_gate) {
      std::lock_guard lock{m};
      open = true;
      cv.notify_all();
    }
    if (j.wait_gate) {
      std::unique_lock lock{m};
      while (!open) {
        cv.wait(lock);
      }
    }
    for (int c : j.children) {
      Submit(c);
    }
    if (j.stop_inside >= 0) {
      CallStop(j.stop_inside);
    }
    Point("in job");
    Dec(running);
    j.finish = Inc(ts);
  }
};

void OnCall(CJob& job) {
  auto& j = *static_cast<J*>(job.ctx);
  j.prog->Body(j);
}
void OnDrop(CJob& job) {
  auto& j = *static_cast<J*>(job.ctx);
  j.drop = Inc(j.prog->ts);
  Point("in drop");
  for (int c : j.children) {
    j.prog->Submit(c);
  }
}

void Run(bool gate) {
  Quiet quiet;
  Prog p;
  const int workers = gate ? 2 + static_cast<int>(P(2)) : 1 + static_cast<int>(P(3));
  const int threads = 1 + static_cast<int>(P(3));
  const bool stack = P(4) == 3;
  p.single = workers == 1;
  std::optional<yaclib::FairThreadPool> on_stack;
  if (stack) {
    on_stack.emplace(workers);
    p.pool = &*on_stack;
  } else {
    p.owned = yaclib::MakeFairThreadPool(workers);
    p.pool = p.owned.Get();
  }
  MC_CHECK(p.pool->Alive(), "a new pool is not alive");
  std::vector<std::vector<int>> plan(threads);
  auto add = [&](int depth, auto&& self) -> int {
    int id = static_cast<int>(p.jobs.size());
    p.jobs.emplace_back();
    auto& j = p.jobs[id];
    j.prog = &p;
    j.functor = P(4) == 3;
    j.job.id = id;
    j.job.ctx = &j;
    j.job.on_call = OnCall;
    j.job.on_drop = OnDrop;
    if (depth < 2 && p.jobs.size() < 8 && P(3) == 1) {
      int n = 1 + static_cast<int>(P(2));
      for (int k = 0; k < n; ++k) {
        int c = self(depth + 1, self);
        p.jobs[id].children.push_back(c);
      }
    }
    return id;
  };
  for (auto& t : plan) {
    int n = 1 + static_cast<int>(P(4));
    for (int i = 0; i < n; ++i) {
      t.push_back(add(0, add));
    }
  }
  // who stops the pool, how and when
  int inside = -1, inside_kind = 0;
  const int nstops = 1 + static_cast<int>(P(2));
  int kind[2] = {static_cast<int>(P(3)), static_cast<int>(P(3))};
  const bool concurrent_stop = P(3) != 0;
  bool stopper_in_job = false;
  if (!gate && P(4) == 1) {
    inside = static_cast<int>(P(static_cast<mc::u32>(p.jobs.size())));
    inside_kind = static_cast<int>(P(3));
    p.jobs[inside].stop_inside = inside_kind;
    stopper_in_job = true;
  }
  if (gate) {
    // one job blocks its worker until another one of the pool has run
    p.jobs[plan[0][0]].wait_gate = true;
    kind[0] = kind[1] = P(2) ? kSoft : kStop8;
  }
  const mc::u32 delay = P(4);
  const bool sampler = PB();
  mc::Describe("%d worker(s), %d submitter(s), %d job(s), %s stop by %d%s%s%s", workers, threads, static_cast<int>(p.jobs.size()),
               concurrent_stop && !gate ? "concurrent" : "late", kind[0], nstops > 1 ? " twice" : "",
               stopper_in_job ? ", a job stops the pool" : "", gate ? ", gate" : "");
  int wait_ts = 0;
  int dead_sample = 0;  // logical time of the first !Alive()
  CJob opener;
  int late_stop_before = 0;
  {
    std::vector<Thread> ts;
    for (int t = 1; t < threads; ++t) {
      ts.emplace_back([&, t] {
        for (int i : plan[t]) {
          Point();
          p.Submit(i);
        }
      });
    }
    std::optional<Thread> stopper;
    if (concurrent_stop && !gate) {
      stopper.emplace([&] {
        for (mc::u32 i = 0; i < delay; ++i) {
          Point();
        }
        for (int i = 0; i < nstops; ++i) {
          p.CallStop(kind[i]);
        }
      });
    }
    std::optional<Thread> observer;
    if (sampler) {
      observer.emplace([&] {
        for (int i = 0; i < 4 && dead_sample == 0; ++i) {
          int before = Inc(p.ts);
          if (!p.pool->Alive()) {
            dead_sample = Inc(p.ts);
            std::lock_guard lock{p.m};
            bool begun = false;
            for (auto& s : p.stops) {
              begun |= s.begin < dead_sample;
            }
            MC_CHECK(begun, "Alive() is false although nobody stopped the pool");
          } else {
            std::lock_guard lock{p.m};
            for (auto& s : p.stops) {
              MC_CHECK(s.kind == kSoft || !(s.end < before), "Alive() is true after Stop/HardStop returned");
            }
          }
          Point();
        }
      });
    }
    for (int i : plan[0]) {
      Point();
      p.Submit(i);
    }
    if (gate) {
      opener.ctx = &p;
      opener.on_call = [](CJob& j) {
        auto& pr = *static_cast<Prog*>(j.ctx);
        std::lock_guard lock{pr.m};
        pr.open = true;
        pr.cv.notify_all();
      };
      p.pool->Submit(opener);
    }
    for (auto& t : ts) {
      t.join();
    }
    if (stopper) {
      stopper->join();
    } else {
      for (int i = 0; i < nstops; ++i) {
        p.CallStop(kind[i]);
      }
    }
    p.pool->Wait();
    wait_ts = Inc(p.ts);
    int still = Ld(p.running);
    MC_CHECK(still == 0, "%d job(s) still running after Wait returned", still);
    for (auto& j : p.jobs) {
      MC_CHECK(!(Ld(j.job.calls) != 0 && j.finish == 0), "job %d is still running after Wait returned", j.job.id);
    }
    // after Wait everything is refused
    if (PB()) {
      CJob late;
      p.pool->Submit(late);
      MC_CHECK(Ld(late.drops) == 1 && Ld(late.calls) == 0, "a job submitted after Wait was not dropped");
    }
    if (observer) {
      observer->join();
    }
    MC_CHECK(!p.pool->Alive(), "the pool is alive after Wait");
    if (PB()) {
      p.CallStop(static_cast<int>(P(3)));
    }
  }
  (void)late_stop_before;
  if (gate) {
    MC_CHECK(Ld(opener.calls) == 1, "a job submitted before the stop was not called");
  }
  // verdict
  int hard = 0, soft_only = 1;
  int first_stop_begin = 1 << 30, first_strong_end = 1 << 30;
  for (auto& s : p.stops) {
    hard += s.kind == kHard && s.begin < wait_ts;
    soft_only &= s.kind == kSoft || s.begin > wait_ts;
    first_stop_begin = std::min(first_stop_begin, s.begin);
    if (s.kind != kSoft) {
      first_strong_end = std::min(first_strong_end, s.end);
    }
  }
  std::vector<char> reach(p.jobs.size(), 0);
  auto mark = [&](int i, auto&& self) -> void {
    reach[i] = 1;
    if (Ld(p.jobs[i].job.calls) == 1 || !p.jobs[i].functor) {
      for (int c : p.jobs[i].children) {
        self(c, self);
      }
    }
  };
  for (auto& t : plan) {
    for (int i : t) {
      mark(i, mark);
    }
  }
  int called = 0, dropped = 0, late_starts = 0, first_drop = 1 << 30, last_finish = 0;
  for (auto& j : p.jobs) {
    if (reach[j.job.id] == 0) {
      continue;
    }
    const int c = Ld(j.job.calls), d = Ld(j.job.drops), id = j.job.id;
    MC_CHECK(c + d == 1, "job %d: called %d times, dropped %d times", id, c, d);
    called += c;
    dropped += d;
    MC_CHECK(!(c && j.start > wait_ts), "job %d ran after Wait returned", id);
    if (d != 0) {
      MC_CHECK(first_stop_begin < j.drop, "job %d was dropped before anybody stopped the pool", id);
      bool by_hard = false;
      for (auto& s : p.stops) {
        by_hard |= s.kind == kHard && s.begin < j.drop && j.drop < s.end;
      }
      MC_CHECK(by_hard || !(j.end < first_stop_begin), "job %d was accepted before the stop and dropped by it", id);
      first_drop = std::min(first_drop, j.drop);
    } else {
      MC_CHECK(!(first_strong_end < j.begin), "job %d was submitted after Stop returned and was called", id);
      late_starts += j.start > first_strong_end;
      last_finish = std::max(last_finish, j.finish);
    }
  }
  if (soft_only != 0) {
    MC_CHECK(last_finish < first_drop, "SoftStop stopped the pool (a job was dropped) while an accepted job was queued or running");
    MC_CHECK(dead_sample == 0 || last_finish < dead_sample,
             "SoftStop stopped the pool (Alive() is false) while an accepted job was queued or running");
  }
  if (p.single) {
    MC_CHECK(p.single_acc == called, "jobs of a single worker interfered");
    for (auto& a : p.jobs) {
      for (auto& b : p.jobs) {
        if (a.start != 0 && b.start != 0 && a.start < b.start) {
          MC_CHECK(!(b.end < a.begin), "single worker: job %d started before job %d, which was submitted earlier", a.job.id, b.job.id);
        }
      }
    }
  }
  bool all_hard = !p.stops.empty();
  for (auto& s : p.stops) {
    all_hard &= s.kind == kHard || s.begin > wait_ts;
  }
  if (all_hard) {
    MC_CHECK(late_starts <= workers, "%d jobs started after HardStop returned with %d worker(s)", late_starts, workers);
  }
  if (called + dropped >= 2 && mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
  mc::Label(dropped == 0 ? "all called" : called == 0 ? "all dropped" : "called and dropped");
  mc::Label(hard ? "HardStop" : soft_only ? "SoftStop only" : "Stop");
}

}  // namespace

MC_SCENARIO(c08_pool, "C08", 4) {
  Run(false);
}
MC_SCENARIO(c08_pool_gate, "C08", 1) {
  Run(true);
}
