#pragma once

#include "pipe.hpp"

namespace pl {

template <int Src>
Any RunOne(Step& st, int exe) {
  return Dispatch<void, false>(st, [&]<int S, typename To, int R>() -> Any {
    if constexpr ((S == sNone || S == sRes) && !(S == sRes && R != rPlain && R != rRes && R != rTask)) {
      using F = Fn<void, S, To, R>;
      if constexpr (Src == xRun) {
        return Any{yaclib::Run<Err>(F{st})};
      } else if constexpr (Src == xRunE) {
        return Any{yaclib::Run<Err>(Exec(exe), F{st})};
      } else if constexpr (Src == xRunSh) {
        return Any{yaclib::RunShared<Err>(F{st})};
      } else if constexpr (Src == xRunShE) {
        return Any{yaclib::RunShared<Err>(Exec(exe), F{st})};
      } else if constexpr (Src == xSchedule) {
        return Any{yaclib::Schedule<Err>(F{st})};
      } else {
        return Any{yaclib::Schedule<Err>(Exec(exe), F{st})};
      }
    } else {
      mc::Fail("HARNESS", "no such source");
    }
  });
}

}  // namespace pl
