// C05: executors: every job is called xor dropped, and steps run where they were told
#include "pipe_run.hpp"

namespace {

using namespace pl;

MC_SCENARIO(placed, "C05", 3) {
  Body(false, P(4) == 3);
}
MC_SCENARIO(placed_refused, "C05", 3) {
  Body(true, P(4) == 3);
}

// one thread, manual and inline executors, generated moments of draining
MC_SCENARIO(manual, "C05", 2) {
  Quiet quiet;
  Run run;
  Env env{true};
  g_env = &env;
  Program pr;
  GenOpts o;
  o.exes = 1 + static_cast<int>(P(3));
  o.single = true;
  GenSingle(env, o.exes, P(3) == 2);
  env.Fill(run);
  run.pump = &PumpEnv;
  o.lazy = P(4) == 3;
  Generate(pr, o);
  g_run = &run;
  mc::Describe("%s%s", env.text.c_str(), Text(pr).c_str());
  Any any = Build(*pr.top);
  if (pr.top->kind != kTask && (pr.fin.how == nGet || pr.fin.how == nWaitTouch || P(2) != 0)) {
    env.Pump();
  }
  Consume(std::move(any), pr.fin, pr.top->is_void);
  any = Any{};
  env.Pump();
  Reading r;
  r.acc = env.Acc();
  Read(pr, r);
  env.Finish();
  Compare(pr, r, run);
  env.CheckCounts(r);
  CheckKept(pr, r);
  if (r.events.size() >= 2) {
    mc::NonTrivial();
  }
  g_run = nullptr;
}

// jobs and functors handed to every executor from several threads
struct JobCase {
  struct Sub {
    CJob job;
    bool functor = false;
    int exe = 0;
    int again = -1;  // submitted by the previous one from inside
    Counter runs{0};
    Counter entered{0};
    int by = 0;  // submitting thread
  };
  std::deque<Sub> subs;
  Env* env = nullptr;
  Run* run = nullptr;
  Counter stop_called[kMaxExe]{};
};
JobCase* g_case = nullptr;

void SubmitOne(JobCase::Sub& s);

void RunOneJob(JobCase::Sub& s) {
  MC_CHECK(Inc(s.runs) == 1, "a job was called twice");
  MC_CHECK(s.exe < 2 || CurExe() == s.exe, "a job of executor %d ran on executor %d", s.exe, CurExe());
  MC_CHECK(s.exe != kStopE, "the stopped inline executor called a job");
  if (s.again >= 0) {
    SubmitOne(g_case->subs[s.again]);
  }
}

struct SubFn {
  JobCase::Sub* s;
  Tok tok;
  void operator()() {
    tok.Alive();
    RunOneJob(*s);
    if (s->by == 1) {
      throw Ex{1};  // ignored
    }
  }
};

void SubmitOne(JobCase::Sub& s) {
  auto& e = *g_case->run->exe[s.exe];
  if (s.functor) {
    yaclib::Submit(e, SubFn{&s, {}});
    return;
  }
  s.job.ctx = &s;
  s.job.on_call = [](CJob& j) {
    RunOneJob(*static_cast<JobCase::Sub*>(j.ctx));
  };
  s.job.on_drop = [](CJob& j) {
    auto& s = *static_cast<JobCase::Sub*>(j.ctx);
    MC_CHECK(s.exe == kStopE || (s.exe >= 2 && Ld(g_case->stop_called[s.exe]) != 0), "executor %d dropped a job and was never stopped", s.exe);
  };
  e.Submit(s.job);
}

MC_SCENARIO(jobs, "C05", 2) {
  Quiet quiet;
  Run run;
  JobCase c;
  Env env{false};
  g_case = &c;
  c.env = &env;
  c.run = &run;
  const int n = 1 + static_cast<int>(P(3));
  int manual = -1;
  for (int i = 0; i < n; ++i) {
    const u32 k = P(6);
    static constexpr int kUnder[] = {0, 0, 0, 1, 2};
    const bool man = k == 5 && manual < 0;
    if (man) {
      manual = 2 + i;
    }
    const int under = man ? 3 : kUnder[k == 5 ? 1 : k];
    const int accept = !man && under != 2 && P(4) == 3 ? static_cast<int>(P(4)) : 1 << 20;
    if (accept < 1000) {
      St(c.stop_called[2 + i], 1);
    }
    env.Add(under, k == 0 ? 0 : 1 + static_cast<int>(P(2)), accept);
  }
  env.Fill(run);
  std::string d = env.text;
  const int threads = 1 + static_cast<int>(P(3));
  std::vector<std::vector<int>> plan(threads);
  for (int t = 0; t < threads; ++t) {
    const u32 m = 1 + P(4);
    d += "T" + std::to_string(t) + ":";
    for (u32 i = 0; i < m; ++i) {
      int chain = -1;
      const u32 depth = P(3) == 2 ? 2 : 1;
      for (u32 k = 0; k < depth; ++k) {
        auto& s = c.subs.emplace_back();
        const u32 e = P(static_cast<u32>(n) + 2);
        s.exe = e < static_cast<u32>(n) ? 2 + static_cast<int>(e) : static_cast<int>(e) - n;
        if (s.exe == manual && t != 0) {
          s.exe = kInl;  // ManualExecutor belongs to one thread
        }
        if (manual >= 0 && depth == 2) {
          s.exe = s.exe == manual ? kInl : s.exe;
        }
        s.functor = PB();
        s.again = chain;
        s.by = s.functor ? static_cast<int>(P(2)) : 0;
        chain = static_cast<int>(c.subs.size()) - 1;
      }
      plan[t].push_back(chain);
      d += " " + std::to_string(chain) + "@e" + std::to_string(c.subs[chain].exe) + (c.subs[chain].functor ? "f" : "") +
           (c.subs[chain].again >= 0 ? ">e" + std::to_string(c.subs[c.subs[chain].again].exe) : "");
    }
    d += "; ";
  }
  const int stop = P(3) == 2 ? 2 + static_cast<int>(P(static_cast<u32>(n))) : -1;
  if (stop >= 0) {
    d += "stop e" + std::to_string(stop);
  }
  mc::Describe("%s", d.c_str());
  std::deque<h::Thread> ts;
  for (int t = 1; t < threads; ++t) {
    ts.emplace_back([&, t] {
      for (int i : plan[t]) {
        SubmitOne(c.subs[i]);
      }
    });
  }
  if (stop >= 0 && stop != manual) {
    ts.emplace_back([&] {
      St(c.stop_called[stop], 1);
      Point();
      for (auto& e : env.exes) {
        if (e.Id() == stop) {
          e.Stop();
        }
      }
      for (std::size_t i = 0, k = 0; i < env.vias.size(); ++i) {
        if (env.is_pool[i]) {
          if (static_cast<int>(2 + i) == stop) {
            P(2) != 0 ? env.pools[k].Stop() : env.pools[k].HardStop();
          }
          ++k;
        }
      }
    });
  }
  for (int i : plan[0]) {
    SubmitOne(c.subs[i]);
    if (P(4) == 3) {
      env.Pump();
    }
  }
  for (auto& t : ts) {
    t.join();
  }
  mc::Quiesce();
  env.Pump();
  env.Finish();
  std::size_t calls = 0;
  for (auto& s : c.subs) {
    const int runs = Ld(s.runs);
    if (!s.functor) {
      bool reached = true;
      for (auto& o : c.subs) {
        if (o.again >= 0 && &c.subs[o.again] == &s) {
          reached = Ld(o.runs) != 0;
        }
      }
      MC_CHECK(s.job.Done() == (reached ? 1 : 0), "a job handed to executor %d was finished %d times", s.exe, s.job.Done());
    }
    calls += static_cast<std::size_t>(runs);
  }
  // functors: only the verdicts of the wrappers say what became of them
  for (std::size_t i = 0; i < env.vias.size(); ++i) {
    int called = 0;
    const int m = Ld(env.vias[i].submits);
    for (int k = 0; k < m; ++k) {
      const int v = env.vias[i].Finished(k);
      MC_CHECK(v != 0, "executor %d: a submitted job was neither called nor dropped", static_cast<int>(2 + i));
      MC_CHECK(v == 1 || Ld(c.stop_called[2 + i]) != 0, "executor %d dropped a job and was never stopped", static_cast<int>(2 + i));
      called += v == 1;
    }
    int ran = 0;
    for (auto& s : c.subs) {
      ran += s.exe == static_cast<int>(2 + i) ? Ld(s.runs) : 0;
    }
    MC_CHECK(ran == called, "executor %d called %d job(s), %d ran", static_cast<int>(2 + i), called, ran);
  }
  if (calls >= 2 && mc::Preemptions() != 0) {
    mc::NonTrivial();
  }
}

}  // namespace
