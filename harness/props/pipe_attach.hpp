#pragma once

#include "pipe.hpp"

namespace pl {

template <typename T, int Group, bool C>
Any Attach(Any&& any, Step& st) {
  auto go = [&](auto&& h) {
    using H = std::decay_t<decltype(h)>;
    constexpr int kKind = HT<H>::kKind;
    return Dispatch<T, Group == 1>(st, [&]<int S, typename To, int R>() -> Any {
      using F = Fn<T, S, To, R>;
      if constexpr (C) {
        if constexpr (kKind == kFutOn || kKind == kShOn || kKind == kTask) {
          if (st.form == fThen) {
            return Any{std::move(h).Then(F{st})};
          }
        }
        return Any{std::move(h).Then(Exec(st.exe), F{st})};
      } else {
        if constexpr (S == sRes && R == rPlain) {
          if (st.lvalue) {
            F f{st};
            return Any{std::move(h).ThenInline(f)};
          }
        }
        return Any{std::move(h).ThenInline(F{st})};
      }
    });
  };
  if constexpr (Group == 0) {
    if (auto* h = std::get_if<Future<T, Err>>(&any)) {
      return go(std::move(*h));
    }
    return go(std::get<FutureOn<T, Err>>(std::move(any)));
  } else if constexpr (Group == 1) {
    if (auto* h = std::get_if<SharedFuture<T, Err>>(&any)) {
      return go(std::move(*h));
    }
    return go(std::get<SharedFutureOn<T, Err>>(std::move(any)));
  } else {
    return go(std::get<Task<T, Err>>(std::move(any)));
  }
}

template <typename T, int Group>
void DetachWith(Any&& any, Step& st) {
  auto go = [&](auto&& h) {
    using H = std::decay_t<decltype(h)>;
    constexpr int kKind = HT<H>::kKind;
    auto with = [&]<int S>() {
      if constexpr (Allowed(std::is_void_v<T>, Group == 1, S, std::is_void_v<T>, rPlain) && S != sResC && S != sVC) {
        if (st.sig == S) {
          using F = Fn<T, S, void, rPlain>;
          if constexpr (kKind == kFut || kKind == kFutOn) {
            if (st.form == fInline) {
              std::move(h).DetachInline(F{st});
              return true;
            }
            if constexpr (kKind == kFutOn) {
              if (st.form == fThen) {
                std::move(h).Detach(F{st});
                return true;
              }
            }
            std::move(h).Detach(Exec(st.exe), F{st});
          } else {
            if (st.form == fInline) {
              h.SubscribeInline(F{st});
              return true;
            }
            if constexpr (kKind == kShOn) {
              if (st.form == fThen) {
                h.Subscribe(F{st});
                return true;
              }
            } else {
              h.Subscribe(Exec(st.exe), F{st});
            }
          }
          return true;
        }
      }
      return false;
    };
    const bool ok = with.template operator()<sRes>() || with.template operator()<sResR>() || with.template operator()<sV>() ||
                    with.template operator()<sVR>() || with.template operator()<sNone>() || with.template operator()<sErr>() ||
                    with.template operator()<sExc>();
    if (!ok) {
      mc::Fail("HARNESS", "no such detach: sig %d", st.sig);
    }
  };
  if constexpr (Group == 0) {
    if (auto* h = std::get_if<Future<T, Err>>(&any)) {
      return go(std::move(*h));
    }
    go(std::get<FutureOn<T, Err>>(std::move(any)));
  } else {
    if (auto* h = std::get_if<SharedFuture<T, Err>>(&any)) {
      return go(std::move(*h));
    }
    go(std::get<SharedFutureOn<T, Err>>(std::move(any)));
  }
}

}  // namespace pl
