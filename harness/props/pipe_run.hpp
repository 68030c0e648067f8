// Runs generated pipelines on generated executors
#pragma once

#include "pipe.hpp"

namespace pl {

// The executors of a case; ids 2 .. 2 + n - 1
struct Env {
  std::deque<Exe> exes;
  std::deque<yaclib::FairThreadPool> pools;
  std::vector<yaclib::IExecutorPtr> ptrs;  // strands, manual executors
  std::deque<Via> vias;
  std::vector<yaclib::ManualExecutor*> manual;
  bool is_pool[kMaxExe]{};
  Exe bg_exe;
  std::string text;
  bool refusing = false;

  explicit Env(bool single) : bg_exe{90, single ? 0 : 1} {
  }

  void Add(int under_kind, int workers, int accept) {
    const int id = 2 + static_cast<int>(vias.size());
    text += "e" + std::to_string(id) + "=";
    IExecutor* under = nullptr;
    auto exe = [&]() -> Exe& {
      text += "Exe(" + std::to_string(workers) + (accept < 1000 ? ", accepts " + std::to_string(accept) : "") + ")";
      return exes.emplace_back(id, workers, accept);
    };
    switch (under_kind) {
      case 0:
        under = &exe();
        break;
      case 1:
        text += "Strand over ";
        ptrs.push_back(yaclib::MakeStrand(&exe()));
        under = ptrs.back().Get();
        break;
      case 2:
        text += "FairThreadPool(" + std::to_string(workers) + ")";
        is_pool[vias.size()] = true;
        under = &pools.emplace_back(static_cast<std::size_t>(workers));
        break;
      default: {
        text += "Manual";
        auto* m = new yaclib::ManualExecutor();
        manuals.emplace_back(m);
        manual.push_back(m);
        under = m;
      }
    }
    text += "; ";
    refusing = refusing || accept < 1000;
    vias.emplace_back(id, *under);
  }
  std::deque<std::unique_ptr<yaclib::ManualExecutor>> manuals;

  void Fill(Run& run) {
    run.exe[kInl] = &yaclib::MakeInline();
    run.exe[kStopE] = &yaclib::MakeInline(yaclib::StopTag{});
    for (std::size_t i = 0; i < vias.size(); ++i) {
      run.exe[2 + i] = &vias[i];
    }
    run.bg = &bg_exe;
  }
  // runs everything that is queued in manual executors, returns when all of them are empty
  void Pump() {
    bool again = true;
    while (again) {
      again = false;
      for (auto* m : manual) {
        again = m->Drain() != 0 || again;
      }
    }
  }
  void Finish() {
    for (auto& p : pools) {
      p.Stop();
      p.Wait();
    }
    for (auto& e : exes) {
      e.Finish();
    }
    bg_exe.Finish();
  }
  auto Acc() {
    return [this](int e, int k) {
      auto& v = vias[e - 2];
      // a submission that did not happen is reported by the comparison of the counters
      return k >= Ld(v.submits) || v.Accepted(k);
    };
  }
  void CheckCounts(const Reading& r) {
    for (std::size_t i = 0; i < vias.size(); ++i) {
      const int n = Ld(vias[i].submits);
      MC_CHECK_TAG("C05", n == r.submits[2 + i], "executor %d: %d submission(s), expected %d", static_cast<int>(2 + i), n, r.submits[2 + i]);
      for (int k = 0; k < n; ++k) {
        MC_CHECK_TAG("C05", vias[i].Finished(k) != 0, "executor %d: a submitted job was neither called nor dropped", static_cast<int>(2 + i));
      }
    }
  }
};

inline Env* g_env = nullptr;

inline void PumpEnv() {
  g_env->Pump();
}

// generated executors behind the ids 2, 3: threads, strands, pools; some refuse from some submission on
inline void GenExes(Env& env, int n, bool refuse) {
  for (int i = 0; i < n; ++i) {
    const int accept = refuse && P(2) != 0 ? static_cast<int>(P(4)) : 1 << 20;
    const u32 k = P(5);
    static constexpr int kUnder[] = {0, 0, 0, 1, 2};
    env.Add(kUnder[k], k == 0 ? 0 : 1 + static_cast<int>(P(2)), accept);
  }
}
// nothing here needs a second thread: inline and manual executors
inline void GenSingle(Env& env, int n, bool refuse) {
  for (int i = 0; i < n; ++i) {
    const int accept = refuse && P(2) != 0 ? static_cast<int>(P(4)) : 1 << 20;
    static constexpr int kUnder[] = {0, 3, 1};
    env.Add(kUnder[P(3)], 0, accept);
  }
}

// One pipeline against its reading
inline void Body(bool stop, bool lazy) {
  Quiet quiet;
  Run run;
  Env env{false};
  Program pr;
  GenOpts o;
  o.exes = 1 + static_cast<int>(P(2));
  GenExes(env, o.exes, stop);
  env.Fill(run);
  o.lazy = lazy;
  o.max_steps = 5;
  Generate(pr, o);
  g_run = &run;
  mc::Describe("%s%s", env.text.c_str(), Text(pr).c_str());

  h::Thread stopper;
  const u32 stop_exe = stop && P(3) == 2 ? P(static_cast<u32>(o.exes)) : 99;
  if (stop_exe < 2) {
    stopper = h::Thread{[&] {
      Point();
      for (auto& e : env.exes) {
        if (e.Id() == static_cast<int>(2 + stop_exe)) {
          e.Stop();
        }
      }
    }};
    mc::Label("stopped concurrently");
  }
  Any any = Build(*pr.top);
  Consume(std::move(any), pr.fin, pr.top->is_void);
  any = Any{};
  if (stopper.joinable()) {
    stopper.join();
  }
  mc::Quiesce();
  Reading r;
  r.acc = env.Acc();
  Read(pr, r);
  env.Finish();
  Compare(pr, r, run);
  env.CheckCounts(r);
  CheckKept(pr, r);
  if (r.refused != 0) {
    mc::Label("refused submission");
  }
  if (r.events.size() >= 2) {
    mc::NonTrivial();
  }
  g_run = nullptr;
}

}  // namespace pl
