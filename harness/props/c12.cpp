// C12: a Task does nothing until started, then behaves like the same eager pipeline
#include "pipe_run.hpp"

namespace {

using namespace pl;

struct Observed {
  std::vector<Event> events;
  Out final;
};

void Observe(Run& run, Observed& o) {
  const int n = Ld(run.n);
  for (int i = 0; i < n; ++i) {
    o.events.push_back({Ld(run.rec[i].id), {Ld(run.rec[i].kind), Ld(run.rec[i].v)}, kAnywhere});
  }
  o.final = run.final;
}

struct ExeSpec {
  int kind, workers, accept;
};

void LazyCase(bool refuse) {
  Quiet quiet;
  Program pr;
  GenOpts o;
  o.lazy = true;
  o.exes = 1 + static_cast<int>(P(2));
  std::vector<ExeSpec> specs;
  for (int i = 0; i < o.exes; ++i) {
    static constexpr int kUnder[] = {0, 0, 0, 1, 2};
    const u32 k = P(5);
    specs.push_back({kUnder[k], k == 0 ? 0 : 1 + static_cast<int>(P(2)), refuse && P(2) != 0 ? static_cast<int>(P(4)) : 1 << 20});
  }
  Generate(pr, o);
  bool twin = false;
  Observed lazy, eager;
  {
    Run run;
    Env env{false};
    for (auto& s : specs) {
      env.Add(s.kind, s.workers, s.accept);
    }
    env.Fill(run);
    g_run = &run;
    mc::Describe("%s%s", env.text.c_str(), Text(pr).c_str());
    St(run.started, 0);
    Any any = Build(*pr.top);
    const u32 wait = P(3);
    for (u32 i = 0; i < wait; ++i) {
      Point();
    }
    if (wait == 2) {
      mc::Quiesce();
    }
    MC_CHECK(Ld(run.n) == 0, "a step ran before its Task was started");
    for (auto& v : env.vias) {
      MC_CHECK(Ld(v.submits) == 0, "something was submitted before the Task was started");
    }
    // moved around before it is started
    if (P(3) == 2) {
      Any other = std::move(any);
      any = Any{};
      any = std::move(other);
    }
    const bool drop = pr.fin.how == nDrop || pr.fin.how == nCancel;
    St(run.started, 1);
    Consume(std::move(any), pr.fin, pr.top->is_void);
    any = Any{};
    mc::Quiesce();
    Reading r;
    r.acc = env.Acc();
    Read(pr, r);
    env.Finish();
    if (drop && !pr.fin.start) {
      mc::Label("cancelled");
      // nothing produces a value before the first callback that takes any Result
      bool recovered = false;
      const int n = Ld(run.n);
      for (int i = 0; i < n; ++i) {
        MC_CHECK(i != 0 || Ld(run.rec[i].kind) != kVal, "a value callback ran although the Task was cancelled");
      }
      static_cast<void>(recovered);
    }
    Compare(pr, r, run);
    env.CheckCounts(r);
    CheckKept(pr, r);
    Observe(run, lazy);
    twin = r.has_out && pr.fin.start_exe < 0;
    if (r.events.size() >= 2) {
      mc::NonTrivial();
    }
    g_run = nullptr;
  }
  if (!twin) {
    return;
  }
  mc::Label("compared with the eager pipeline");
  MakeEager(pr);
  Run run;
  Env env{false};
  for (auto& s : specs) {
    env.Add(s.kind, s.workers, s.accept);
  }
  env.Fill(run);
  g_run = &run;
  Any any = Build(*pr.top);
  Consume(std::move(any), pr.fin, pr.top->is_void);
  any = Any{};
  mc::Quiesce();
  Reading none;
  env.Finish();
  for (auto& p : pr.pool) {
    p.kept = std::monostate{};
  }
  Observe(run, eager);
  g_run = nullptr;
  MC_CHECK(lazy.final == eager.final, "the Task gave %s, the same eager pipeline %s", Str(lazy.final).c_str(), Str(eager.final).c_str());
  MC_CHECK(lazy.events.size() == eager.events.size(), "the Task ran %d callbacks, the same eager pipeline %d", static_cast<int>(lazy.events.size()),
           static_cast<int>(eager.events.size()));
  for (std::size_t i = 0; i < lazy.events.size(); ++i) {
    MC_CHECK(lazy.events[i].id == eager.events[i].id && lazy.events[i].in == eager.events[i].in,
             "callback number %d differs from the eager pipeline", static_cast<int>(i));
  }
}

MC_SCENARIO(lazy, "C12", 2) {
  LazyCase(false);
}
MC_SCENARIO(lazy_refused, "C12", 1) {
  LazyCase(true);
}
// tasks nested in eager pipelines (returned from callbacks, awaited by coroutines)
MC_SCENARIO(lazy_inside, "C12", 1) {
  Body(P(2) != 0, false);
}

}  // namespace
