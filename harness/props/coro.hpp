// coroutine headers and helpers
#pragma once

#include "common.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>

namespace h {

// What an awaited failure looks like when it is rethrown inside a coroutine
inline Out OutOfCurrent() noexcept {
  try {
    throw;
  } catch (const Ex& e) {
    return {kExc, e.Read()};
  } catch (const yaclib::ResultError<Err>& e) {
    return {kErr, e.Get().code};
  } catch (const yaclib::ResultError<yaclib::StopError>&) {
    return kStop;
  } catch (...) {
    return {kEmptyRes, -2};
  }
}

}  // namespace h
