#pragma once

#include <mc.hpp>

#include <functional>
#include <memory>
#include <thread>
#include <tuple>
#include <utility>

namespace yaclib_std {

class thread {
 public:
  using id = mc::u32;
  using native_handle_type = std::thread::native_handle_type;

  thread() noexcept = default;
  template <typename F, typename... Args,
            typename = std::enable_if_t<!std::is_same_v<std::remove_cvref_t<F>, thread>>>
  explicit thread(F&& f, Args&&... args) {
    auto call = [f = std::forward<F>(f), args = std::make_tuple(std::forward<Args>(args)...)]() mutable {
      std::apply(std::move(f), std::move(args));
    };
    using Call = decltype(call);
    auto* p = new Call(std::move(call));
    _id = mc::Spawn(
      [](void* arg) {
        std::unique_ptr<Call> c{static_cast<Call*>(arg)};
        (*c)();
      },
      p);
  }
  thread(thread&& other) noexcept : _id{std::exchange(other._id, 0)} {
  }
  thread& operator=(thread&& other) noexcept {
    if (joinable()) {
      mc::Fail("", "assignment to a joinable thread");
    }
    _id = std::exchange(other._id, 0);
    return *this;
  }
  ~thread() noexcept {
    if (joinable()) {
      mc::Fail("", "joinable thread destroyed");
    }
  }
  void swap(thread& other) noexcept {
    std::swap(_id, other._id);
  }
  bool joinable() const noexcept {
    return _id != 0;
  }
  void join() {
    mc::Join(std::exchange(_id, 0));
  }
  void detach() {
    mc::Detach(std::exchange(_id, 0));
  }
  id get_id() const noexcept {
    return _id;
  }
  static unsigned hardware_concurrency() noexcept {
    return 2;
  }

 private:
  id _id = 0;
};

}  // namespace yaclib_std
