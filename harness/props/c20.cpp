// C20: at most one allocation per pipeline step
#include "pipe_run.hpp"

namespace {

using namespace pl;

void AllocCase(bool lazy) {
  Quiet quiet;
  Run run;
  run.quiet = true;
  Env env{true};
  g_env = &env;
  Program pr;
  GenOpts o;
  o.exes = 1 + static_cast<int>(P(3));
  o.single = true;
  o.lazy = lazy;
  o.max_steps = 6;
  GenSingle(env, o.exes, P(3) == 2);
  env.Fill(run);
  run.pump = &PumpEnv;
  Generate(pr, o);
  g_run = &run;
  mc::Describe("%s%s", env.text.c_str(), Text(pr).c_str());
  const bool pump = pr.top->kind != kTask && (pr.fin.how == nGet || pr.fin.how == nWaitTouch || P(2) != 0);

  const auto before = mc::TotalNews();
  Any any = Build(*pr.top);
  if (pump) {
    env.Pump();
  }
  const auto built = mc::TotalNews();
  Consume(std::move(any), pr.fin, pr.top->is_void);
  any = Any{};
  env.Pump();
  const auto after = mc::TotalNews();

  Reading r;
  r.acc = env.Acc();
  Read(pr, r);
  env.Finish();
  Compare(pr, r, run);
  env.CheckCounts(r);
  CheckKept(pr, r);
  const int got = static_cast<int>(after - before);
  const int bound = r.allocs + 2 * r.convs;
  MC_CHECK(got <= bound, "the pipeline allocated %d block(s), it has %d step(s) (and %d Split/Share/Connect)", got, r.allocs - r.convs, r.convs);
  if (pr.top->kind != kTask && pump && (pr.fin.how == nGet || pr.fin.how == nWaitTouch || pr.fin.how == nDrop || pr.fin.how == nDetach)) {
    MC_CHECK(after == built, "consuming a completed pipeline allocated %d block(s)", static_cast<int>(after - built));
    mc::Label("consumed for free");
  }
  if (r.allocs >= 3) {
    mc::NonTrivial();
  }
  g_run = nullptr;
}

MC_SCENARIO(steps, "C20", 3) {
  AllocCase(false);
}
MC_SCENARIO(lazy_steps, "C20", 2) {
  AllocCase(true);
}

}  // namespace
