// C07: Strand runs one job at a time, in submission order, none lost
#include "common.hpp"

#include <deque>

namespace {
using namespace h;
using yaclib::IExecutorPtr;

struct Rec;
struct Strand7;

struct J {
  CJob job;
  int strand = 0;
  int begin = 0, end = 0;    // logical time around Submit
  int run = 0;               // logical time of execution
  std::vector<int> children; // submitted from inside the job
  bool gate_wait = false;    // waits until the gate is opened by a job of the base executor
  bool drop_submits = false; // children are submitted from Drop too
  bool functor = false;      // submitted as functor with yaclib::Submit
  Counter f_calls{0}, f_dead{0};
  struct Prog* prog = nullptr;
};

struct Prog {
  std::deque<J> jobs;
  std::vector<IExecutorPtr> strands;
  Counter ts{1};
  Counter in[4] = {};
  int acc[4] = {};                // plain memory, ordered only by the strand
  std::vector<int> order[4];      // plain memory, written by the jobs of a strand
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
  bool open = false;
  Counter running_drops{0};

  void Submit(int i);
};

struct Alive {
  explicit Alive(J* j) noexcept : _j{j} {
  }
  Alive(Alive&& o) noexcept : _j{std::exchange(o._j, nullptr)} {
  }
  ~Alive() {
    if (_j != nullptr) {
      if (Inc(_j->f_dead) != 1) {
        mc::Fail(kOwn03, "submitted functor destroyed twice");
      }
      if (Ld(_j->f_calls) == 0) {
        if (Inc(_j->job.drops) + Ld(_j->job.calls) != 1) {
          mc::Fail("", "job finished twice (Drop)");
        }
      }
    }
  }
  J* _j;
};

void Body(J& j) {
  auto& p = *j.prog;
  const int s = j.strand;
  if (Inc(p.in[s]) != 1) {
    mc::Fail("", "two jobs of one strand run at the same time");
  }
  j.run = Inc(p.ts);
  p.acc[s] += 1;
  p.order[s].push_back(j.job.id);
  Point("in job");
  if (j.gate_wait) {
    std::unique_lock lock{p.m};
    while (!p.open) {
      p.cv.wait(lock);
    }
  }
  for (int c : j.children) {
    p.Submit(c);
  }
  Point("in job");
  Dec(p.in[s]);
}

void OnCall(CJob& job) {
  Body(*static_cast<J*>(job.ctx));
}
void OnDrop(CJob& job) {
  auto& j = *static_cast<J*>(job.ctx);
  Point("in drop");
  if (j.drop_submits) {
    for (int c : j.children) {
      j.prog->Submit(c);
    }
  }
}

void Prog::Submit(int i) {
  auto& j = jobs[i];
  j.begin = Inc(ts);
  if (j.functor) {
    yaclib::Submit(*strands[j.strand], [&j, alive = Alive{&j}] {
      Inc(j.f_calls);
      if (Inc(j.job.calls) + Ld(j.job.drops) != 1) {
        mc::Fail("", "job finished twice (Call)");
      }
      Body(j);
    });
  } else {
    strands[j.strand]->Submit(j.job);
  }
  j.end = Inc(ts);
}

enum Base { kPool, kExe, kInline, kManual, kBaseCount };

void Run(bool refuse) {
  Quiet quiet;
  Prog p;
  const auto base = static_cast<Base>(refuse ? P(2) : P(4));
  const int workers = 1 + static_cast<int>(P(3));
  const int accept = refuse && base == kExe ? static_cast<int>(P(6)) : 1 << 30;
  const int nest = static_cast<int>(P(3));  // strand over strand
  const int nstrands = 1 + nest;
  const int threads = base == kManual ? 1 : 1 + static_cast<int>(P(3));
  const bool gate = !refuse && base != kInline && base != kManual && workers >= 2 && P(3) == 1;
  bool stop_mid = refuse && PB();
  const int stop_kind = stop_mid ? static_cast<int>(P(3)) : 0;

  std::optional<Exe> exe;
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  yaclib::ManualExecutor* manual = nullptr;
  IExecutorPtr under;
  Exe* pexe = nullptr;
  switch (base) {
    case kPool:
      pool = yaclib::MakeFairThreadPool(workers);
      under = pool;
      break;
    case kExe:
      exe.emplace(1, workers, accept);
      pexe = &*exe;
      under = IExecutorPtr{pexe};
      break;
    case kManual:
      under = yaclib::MakeManual();
      manual = static_cast<yaclib::ManualExecutor*>(under.Get());
      break;
    default:
      under = IExecutorPtr{&yaclib::MakeInline()};
      break;
  }
  p.strands.push_back(yaclib::MakeStrand(under));
  for (int i = 0; i < nest; ++i) {
    // a chain or a tree
    p.strands.push_back(yaclib::MakeStrand(P(2) ? p.strands[0] : p.strands.back()));
  }
  // jobs
  std::vector<std::vector<int>> plan(threads);
  auto add = [&](int depth, auto&& self) -> int {
    int id = static_cast<int>(p.jobs.size());
    p.jobs.emplace_back();
    {
      auto& j = p.jobs[id];
      j.prog = &p;
      j.strand = static_cast<int>(P(nstrands));
      j.functor = P(4) == 3;
      j.job.id = id;
      j.job.ctx = &j;
      j.job.on_call = OnCall;
      j.job.on_drop = OnDrop;
    }
    if (depth < 2 && p.jobs.size() < 10 && P(3) == 1) {
      int n = 1 + static_cast<int>(P(2));
      for (int k = 0; k < n; ++k) {
        int c = self(depth + 1, self);
        p.jobs[id].children.push_back(c);
      }
      p.jobs[id].drop_submits = !p.jobs[id].functor && P(2);
    }
    return id;
  };
  for (auto& t : plan) {
    int n = 1 + static_cast<int>(P(4));
    for (int i = 0; i < n; ++i) {
      t.push_back(add(0, add));
    }
  }
  if (gate) {
    p.jobs[plan[0][0]].gate_wait = true;
  }
  mc::Describe("base %d workers %d accept %d, %d strand(s), %d submitter(s), %d job(s)%s%s", base, workers, accept == 1 << 30 ? -1 : accept,
               nstrands, threads, static_cast<int>(p.jobs.size()), gate ? ", gate" : "", stop_mid ? ", stop in the middle" : "");
  {
    std::vector<Thread> ts;
    for (int t = 0; t < threads; ++t) {
      auto go = [&, t] {
        for (int i : plan[t]) {
          Point();
          p.Submit(i);
        }
      };
      if (t == 0) {
        continue;
      }
      ts.emplace_back(go);
    }
    std::optional<Thread> stopper;
    if (stop_mid) {
      stopper.emplace([&] {
        Point();
        Point();
        if (pool) {
          stop_kind == 0 ? pool->Stop() : stop_kind == 1 ? pool->HardStop() : pool->SoftStop();
        } else {
          pexe->Stop();
        }
      });
    }
    CJob opener;
    if (gate) {
      // only the base executor can open the gate: a blocked worker thread would be a deadlock
      opener.ctx = &p;
      opener.on_call = [](CJob& j) {
        auto& pr = *static_cast<Prog*>(j.ctx);
        std::lock_guard lock{pr.m};
        pr.open = true;
        pr.cv.notify_all();
      };
    }
    for (int i : plan[0]) {
      Point();
      p.Submit(i);
    }
    if (gate) {
      under->Submit(opener);
    }
    for (auto& t : ts) {
      t.join();
    }
    if (stopper) {
      stopper->join();
    }
    if (pool) {
      // jobs submit jobs: everything is finished before the pool is stopped
      if (!stop_mid) {
        for (auto& j : p.jobs) {
          (void)j;
        }
        pool->SoftStop();
      }
      pool->Wait();
    } else if (pexe != nullptr) {
      pexe->Finish();
    } else if (manual != nullptr) {
      while (manual->Drain() != 0) {
      }
    }
  }
  // verdict
  int called = 0, dropped = 0;
  std::vector<char> reach(p.jobs.size(), 0);
  auto mark = [&](int i, auto&& self) -> void {
    reach[i] = 1;
    if (Ld(p.jobs[i].job.calls) == 1 || p.jobs[i].drop_submits) {
      for (int c : p.jobs[i].children) {
        self(c, self);
      }
    }
  };
  for (auto& t : plan) {
    for (int i : t) {
      mark(i, mark);
    }
  }
  for (auto& j : p.jobs) {
    int c = Ld(j.job.calls), d = Ld(j.job.drops);
    if (reach[j.job.id] == 0) {
      continue;
    }
    MC_CHECK(c + d == 1, "job %d: called %d times, dropped %d times", j.job.id, c, d);
    called += c;
    dropped += d;
  }
  if (!refuse) {
    MC_CHECK(dropped == 0, "%d job(s) dropped although the underlying executor never refused", dropped);
  }
  if (pexe != nullptr && Ld(pexe->drops) == 0) {
    MC_CHECK(dropped == 0, "%d job(s) dropped although the underlying executor never refused", dropped);
  }
  for (int s = 0; s < nstrands; ++s) {
    MC_CHECK(p.acc[s] == static_cast<int>(p.order[s].size()), "critical sections of strand jobs interfered");
    for (std::size_t a = 0; a < p.order[s].size(); ++a) {
      for (std::size_t b = a + 1; b < p.order[s].size(); ++b) {
        auto& first = p.jobs[p.order[s][a]];
        auto& second = p.jobs[p.order[s][b]];
        MC_CHECK(!(second.end != 0 && second.end < first.begin),
                 "job %d ran before job %d although its submission began after the other's had returned", first.job.id,
                 second.job.id);
      }
    }
  }
  p.strands.clear();
  under = nullptr;
  if (called >= 2 && mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
  mc::Label(dropped != 0 ? "drops" : "no drops");
}

}  // namespace

MC_SCENARIO(c07_strand, "C07", 4) {
  Run(false);
}
MC_SCENARIO(c07_strand_refuse, "C07", 3) {
  Run(true);
}
