// Coroutine Mutex / SharedMutex: what both harnesses need
#pragma once

#include "coro.hpp"

#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <deque>
#include <optional>
#include <string>
#include <vector>

namespace h {

using yaclib::Future;
using yaclib::IExecutor;
using yaclib::IExecutorPtr;
using yaclib::Task;

// One Lock / Guard / ... request: arrival interval (only a request that really suspends has an end) and grant time
struct Req {
  int begin = 0;
  Counter suspended{0};  // 0: granted without suspension
  int grant = 0;
  bool tried = false;  // await_suspend was called
};

inline Counter g_clock{0};

// Wraps an awaiter, notes when its await_suspend returned with the coroutine suspended
template <typename A>
struct Timed {
  A inner;
  Req* req;

  bool await_ready() noexcept(noexcept(inner.await_ready())) {
    req->begin = Inc(g_clock);
    return inner.await_ready();
  }
  template <typename Promise>
  __attribute__((noinline)) auto await_suspend(yaclib_std::coroutine_handle<Promise> handle) noexcept {
    // nothing of *this may be touched once the coroutine is suspended
    auto* r = req;
    r->tried = true;
    auto result = inner.await_suspend(handle);
    if constexpr (std::is_same_v<decltype(result), bool>) {
      if (result) {
        St(r->suspended, Inc(g_clock));
      }
    } else {
      St(r->suspended, Inc(g_clock));
    }
    return result;
  }
  auto await_resume() noexcept(noexcept(inner.await_resume())) {
    return inner.await_resume();
  }
};

struct Place {
  IExecutor* exe = nullptr;  // where On goes
  int id = -1;               // what CurExe() has to say there, -1: no opinion
};

// The executors of one program
struct Places {
  std::deque<Exe> exes;
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  std::vector<IExecutorPtr> strands;
  std::vector<Place> all;

  // kinds of environment: single worker only / several executors / with strands and a library pool
  explicit Places(std::string& d) {
    switch (P(4)) {
      case 0:
        d += "one single-thread executor; ";
        mc::Label("single-thread executor");
        Add(1);
        break;
      case 1:
        d += "two executors; ";
        Add(1);
        Add(2);
        break;
      case 2:
        d += "executor and strand over it; ";
        mc::Label("strand");
        Add(2);
        strands.push_back(yaclib::MakeStrand(&exes.back()));
        all.push_back({strands.back().Get(), -1});
        break;
      default:
        d += "FairThreadPool(1) and inline executor; ";
        mc::Label("FairThreadPool(1)");
        pool = yaclib::MakeFairThreadPool(1);
        all.push_back({pool.Get(), -1});
        Add(0);
        break;
    }
  }
  void Add(int workers) {
    const int id = static_cast<int>(all.size()) + 1;
    exes.emplace_back(id, workers);
    all.push_back({&exes.back(), id});
  }
  void Finish() {
    if (pool) {
      pool->SoftStop();
      pool->Wait();
      pool = nullptr;
    }
    strands.clear();
    for (auto& e : exes) {
      e.Finish();
    }
  }
};

}  // namespace h
