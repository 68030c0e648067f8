From e83ae0fba3bb87f7406b06ea4dc544dd2e9570f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 01/29] fix: AwaitSticky of several futures did not compile,
 Count is spelled kCount

---
 include/yaclib/coro/await_sticky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/await_sticky.hpp b/include/yaclib/coro/await_sticky.hpp
index dce18ad..96560e7 100644
--- a/include/yaclib/coro/await_sticky.hpp
+++ b/include/yaclib/coro/await_sticky.hpp
@@ -16,7 +16,7 @@ YACLIB_INLINE auto AwaitSticky(Waited& waited) noexcept {
 template <typename... Waited, typename = std::enable_if_t<(... && is_waitable_v<Waited>)>>
 YACLIB_INLINE auto AwaitSticky(Waited&... waited) noexcept {
   using namespace detail;
-  static constexpr auto kSharedCount = Count<SharedHandle, typename Waited::Handle...>;
+  static constexpr auto kSharedCount = kCount<SharedHandle, typename Waited::Handle...>;
   using Awaiter = std::conditional_t<kSharedCount == 0, MultiAwaitAwaiter<AwaitEvent<true>>,
                                      MultiAwaitAwaiter<StaticSharedEvent<AwaitEvent<true>, kSharedCount>>>;
   YACLIB_ASSERT(... && waited.Valid());
-- 
2.43.0


From 00e83fcd11a489daa7bf18f724a9a22455b293b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 02/29] fix: MakeSharedContractOn returns SharedContractOn, it
 could not be instantiated

---
 include/yaclib/async/shared_contract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/async/shared_contract.hpp b/include/yaclib/async/shared_contract.hpp
index 7bc01d8..d723e11 100644
--- a/include/yaclib/async/shared_contract.hpp
+++ b/include/yaclib/async/shared_contract.hpp
@@ -23,7 +23,7 @@ template <typename V = void, typename E = StopError>
 }
 
 template <typename V = void, typename E = StopError>
-[[nodiscard]] SharedContract<V, E> MakeSharedContractOn(IExecutor& e) {
+[[nodiscard]] SharedContractOn<V, E> MakeSharedContractOn(IExecutor& e) {
   auto core = MakeShared<detail::SharedCore<V, E>>(detail::kSharedRefWithFuture);
   e.IncRef();
   core->_executor.Reset(NoRefTag{}, &e);
-- 
2.43.0


From 81fbf9a6ed8c1d6ae2dc4995766b97099038c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 03/29] fix: a shared state with registered callbacks is not
 ready

---
 include/yaclib/algo/detail/base_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/base_core.hpp b/include/yaclib/algo/detail/base_core.hpp
index a3aac33..926fc3c 100644
--- a/include/yaclib/algo/detail/base_core.hpp
+++ b/include/yaclib/algo/detail/base_core.hpp
@@ -26,7 +26,7 @@ class BaseCore : public InlineCore {
 
   bool Empty() const noexcept {
     auto callback = _callback.load(std::memory_order_acquire);
-    return callback == kEmpty;
+    return callback != kResult;
   }
 
   template <bool Shared>
-- 
2.43.0


From f3bcf70ea64e28c140ab2e8961fd2e013a1c39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 04/29] fix: a coroutine copies the executor of what it awaited
 instead of stealing it

---
 include/yaclib/coro/detail/promise_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index f4655bc..9191c11 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -122,7 +122,7 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
   }
 
   YACLIB_INLINE void Impl(InlineCore& caller) noexcept {
-    this->_executor = std::move(DownCast<BaseCore>(caller)._executor);
+    this->_executor = DownCast<BaseCore>(caller)._executor;
     YACLIB_ASSERT(this->_executor != nullptr);
   }
   [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
-- 
2.43.0


From 490c90e1df7ee73a08f21300071fa42148aa1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 05/29] fix: the last owner of a shared state synchronizes with
 the others before it moves the result out

---
 include/yaclib/coro/detail/promise_type.hpp   | 2 +-
 include/yaclib/util/detail/unique_counter.hpp | 4 +++-
 include/yaclib/util/helper.hpp                | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index 9191c11..7d48f50 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -101,7 +101,7 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
     return this->Add(1);
   }
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    return this->Get(std::memory_order_acquire);
   }
   void DecRef() noexcept final {
     this->Sub(1);
diff --git a/include/yaclib/util/detail/unique_counter.hpp b/include/yaclib/util/detail/unique_counter.hpp
index 3395d0d..9fd6d24 100644
--- a/include/yaclib/util/detail/unique_counter.hpp
+++ b/include/yaclib/util/detail/unique_counter.hpp
@@ -2,6 +2,8 @@
 
 #include <yaclib/util/detail/default_deleter.hpp>
 
+#include <yaclib_std/atomic>
+
 namespace yaclib::detail {
 
 template <typename CounterBase, typename Deleter = DefaultDeleter>
@@ -23,7 +25,7 @@ struct OneCounter : CounterBase {
     Deleter::Delete(*this);
   }
 
-  std::size_t Get() noexcept {
+  std::size_t Get(std::memory_order = std::memory_order_relaxed) noexcept {
     return 1;
   }
 };
diff --git a/include/yaclib/util/helper.hpp b/include/yaclib/util/helper.hpp
index dd2241d..024d7fc 100644
--- a/include/yaclib/util/helper.hpp
+++ b/include/yaclib/util/helper.hpp
@@ -23,7 +23,7 @@ class Helper final : public Counter<ObjectT, DefaultDeleter> {
   }
 
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    return this->Get(std::memory_order_acquire);
   }
 };
 
-- 
2.43.0


From 8d75c8905407aeaa21447ce76619d1f1b24f7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 06/29] fix: WhenAll of different types no longer takes the
 value of the second failed input

---
 include/yaclib/async/when/all_tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/async/when/all_tuple.hpp b/include/yaclib/async/when/all_tuple.hpp
index fbe322c..b88c32d 100644
--- a/include/yaclib/async/when/all_tuple.hpp
+++ b/include/yaclib/async/when/all_tuple.hpp
@@ -51,14 +51,14 @@ struct AllTuple<FailPolicy::FirstFail, OutputValue, OutputError, InputCore> {
 
   template <std::size_t Index, typename Result>
   void Consume(Result&& result) {
-    if (!result && !_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
+    if (result) {
+      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
+    } else if (!_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
       if (result.State() == ResultState::Error) {
         std::move(_p).Set(std::forward<Result>(result).Error());
       } else {
         std::move(_p).Set(std::forward<Result>(result).Exception());
       }
-    } else {
-      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
     }
   }
 
-- 
2.43.0


From e1d156b4dd0c322f1bb53acd56f14407cfc7f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 07/29] fix: StickyGuard keeps the executor it has to return to
 alive

---
 include/yaclib/coro/guard_sticky.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/yaclib/coro/guard_sticky.hpp b/include/yaclib/coro/guard_sticky.hpp
index 0b46c2d..6c6022d 100644
--- a/include/yaclib/coro/guard_sticky.hpp
+++ b/include/yaclib/coro/guard_sticky.hpp
@@ -11,7 +11,7 @@ namespace detail {
 template <typename M>
 class [[nodiscard]] LockStickyAwaiter {
  public:
-  explicit LockStickyAwaiter(M& m, IExecutor*& e) noexcept : _mutex{m}, _executor{e} {
+  explicit LockStickyAwaiter(M& m, IExecutorPtr& e) noexcept : _mutex{m}, _executor{e} {
   }
 
   YACLIB_INLINE bool await_ready() noexcept {
@@ -22,7 +22,8 @@ class [[nodiscard]] LockStickyAwaiter {
   template <typename Promise>
   YACLIB_INLINE bool await_suspend(yaclib_std::coroutine_handle<Promise> handle) noexcept {
     auto& promise = handle.promise();
-    _executor = promise._executor.Get();
+    // own it: with batching the lock comes with the executor of the previous owner in place of this one
+    _executor = promise._executor;
     if (_mutex.AwaitLock(promise)) {
       return true;
     }
@@ -35,7 +36,7 @@ class [[nodiscard]] LockStickyAwaiter {
 
  protected:
   M& _mutex;
-  IExecutor*& _executor;
+  IExecutorPtr& _executor;
 };
 
 template <typename M>
@@ -79,7 +80,7 @@ class [[nodiscard]] StickyGuard : public detail::Guard<M, false> {
   using MutexType = M;
   using Base::Base;
 
-  StickyGuard(StickyGuard&& other) noexcept : Base{std::move(other)}, _executor{other._executor} {
+  StickyGuard(StickyGuard&& other) noexcept : Base{std::move(other)}, _executor{std::move(other._executor)} {
   }
 
   StickyGuard& operator=(StickyGuard&& other) noexcept {
@@ -96,16 +97,16 @@ class [[nodiscard]] StickyGuard : public detail::Guard<M, false> {
   auto Unlock() noexcept {
     auto* m = static_cast<M*>(Base::UnlockState());
     auto& base = M::template Cast<typename M::Base>(*m);
-    return detail::UnlockStickyAwaiter{base, _executor};
+    return detail::UnlockStickyAwaiter{base, _executor.Get()};
   }
 
   void Swap(StickyGuard& other) noexcept {
     Base::Swap(other);
-    std::swap(_executor, other._executor);
+    _executor.Swap(other._executor);
   }
 
  private:
-  IExecutor* _executor = nullptr;
+  IExecutorPtr _executor;
 
   template <typename>
   friend class detail::GuardStickyAwaiter;
-- 
2.43.0


From 87d17b1d8d4023482763d79957efff0dabf2a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 08/29] fix: a Task that was awaited is only released when it
 is destroyed or cancelled

---
 include/yaclib/lazy/task.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/yaclib/lazy/task.hpp b/include/yaclib/lazy/task.hpp
index 84891e7..900b728 100644
--- a/include/yaclib/lazy/task.hpp
+++ b/include/yaclib/lazy/task.hpp
@@ -86,6 +86,10 @@ class Task final {
   }
 
   void Cancel() && noexcept {
+    if (Ready()) {  // it was awaited, nothing to cancel
+      _core = {};
+      return;
+    }
     std::move(*this).Detach(MakeInline(StopTag{}));
   }
 
-- 
2.43.0


From 2e512e7683fd22f3b087494a8c50039da0976c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 09/29] fix: a coroutine and a callback can await a Task made
 by Schedule or LazyContract

---
 include/yaclib/algo/detail/core.hpp         | 10 +++++++-
 include/yaclib/algo/detail/promise_core.hpp | 27 +++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index e87eda5..43de891 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -153,7 +153,15 @@ class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
       return Done<SymmetricTransfer, true>(core.template MoveOrConst<!AsyncShared>());
     };
     if constexpr (IsRun(Type)) {
-      return async_done();
+      if constexpr (kAsync != AsyncType::None) {
+        if (this->_self.caller != nullptr) {
+          return async_done();
+        }
+      }
+      // Head of the Task, which was awaited by coroutine or returned from callback
+      YACLIB_ASSERT(this->_self.caller == nullptr);
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
     } else {
       if constexpr (kAsync != AsyncType::None) {
         if (this->_self.unwrapping != 0) {
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index c77cd2d..6e7fd51 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -25,10 +25,37 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
   using Base = std::conditional_t<Shared, SharedCore<V, E>, UniqueCore<V, E>>;
 
   explicit PromiseCore(Func&& f) : F{std::forward<Func>(f)} {
+    this->_self = {};
   }
 
+  [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
+    if (Start()) {
+      return nullptr;
+    }
+    return Base::Here(caller);
+  }
+#if YACLIB_SYMMETRIC_TRANSFER != 0
+  [[nodiscard]] yaclib_std::coroutine_handle<> Next(InlineCore& caller) noexcept final {
+    if (Start()) {
+      return Noop<true>();
+    }
+    return Base::Next(caller);
+  }
+#endif
+
  private:
+  // Head of the Task, which was awaited by coroutine or returned from callback,
+  // otherwise promise exists, and it's connected to the caller
+  [[nodiscard]] bool Start() noexcept {
+    if (this->_self.unwrapping != 0) {
+      return false;
+    }
+    this->_executor->Submit(*this);
+    return true;
+  }
+
   void Call() noexcept final {
+    this->_self.unwrapping = 1;
     PromiseT promise{CorePtrT{NoRefTag{}, this}};
     try {
       // We need to move func with capture on stack, because promise can be Set before func return
-- 
2.43.0


From c05461eda71845b0670d9a99eabeea6682197f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 10/29] fix: fetch_and, ++ and -- of the fiber atomic compute
 what std::atomic computes

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 36 ++++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 96d16a8..c6e0a8d 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -153,12 +153,12 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
   T fetch_and(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
 
@@ -185,31 +185,31 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   T operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   T operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   T operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   T operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   T operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   T operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   T operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   T operator&=(T arg) noexcept {
@@ -275,31 +275,31 @@ class Atomic<U*> : public AtomicBase<U*> {
   }
 
   U* operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   U* operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   U* operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   U* operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   U* operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   U* operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   U* operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   U* operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   U* operator+=(std::ptrdiff_t arg) noexcept {
-- 
2.43.0


From f1b5ad746de14ed9873105d58004b4842290ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 11/29] fix: volatile compare_exchange, ++ and -- of
 yaclib_std::atomic compile

---
 include/yaclib/fault/detail/atomic.hpp       | 16 +++++++-------
 include/yaclib/fault/detail/fiber/atomic.hpp | 23 ++++++++++++++------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 4f1cf99..c1a86c1 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -215,7 +215,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -224,7 +224,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -233,7 +233,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -242,7 +242,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
@@ -312,7 +312,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -321,7 +321,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -330,7 +330,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -339,7 +339,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index c6e0a8d..54deefe 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -69,16 +69,25 @@ class AtomicBase : public AtomicWait<T> {
   }
 
  protected:
-  bool CompareExchangeHelper(T& expected, T desired) {
-    if (this->_value == expected) {
-      this->_value = desired;
+  bool CompareExchangeHelper(T& expected, T desired) noexcept {
+    return CompareExchange(_value, expected, desired);
+  }
+  bool CompareExchangeHelper(T& expected, T desired) volatile noexcept {
+    return CompareExchange(_value, expected, desired);
+  }
+  using Base::_value;
+
+ private:
+  template <typename Value>
+  static bool CompareExchange(Value& value, T& expected, T desired) noexcept {
+    const T current = value;
+    if (current == expected) {
+      value = desired;
       return true;
-    } else {
-      expected = this->_value;
-      return false;
     }
+    expected = current;
+    return false;
   }
-  using Base::_value;
 };
 
 template <typename T, bool IsFloating = std::is_floating_point_v<T>>
-- 
2.43.0


From 6eef2e550514b9c5d98c8c74b3897e3b7a00bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 12/29] fix: compare_exchange of a fiber atomic of floating
 type compares representations

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 54deefe..1380aa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,6 +2,10 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <cstddef>
+#include <cstring>
+#include <limits>
+#include <type_traits>
 #include <utility>
 
 namespace yaclib::detail::fiber {
@@ -81,13 +85,24 @@ class AtomicBase : public AtomicWait<T> {
   template <typename Value>
   static bool CompareExchange(Value& value, T& expected, T desired) noexcept {
     const T current = value;
-    if (current == expected) {
+    if (Same(current, expected)) {
       value = desired;
       return true;
     }
     expected = current;
     return false;
   }
+
+  // std::atomic compares representations: 0.0 isn't -0.0 and a NaN is the same NaN
+  static bool Same(const T& lhs, const T& rhs) noexcept {
+    if constexpr (std::is_floating_point_v<T>) {
+      // x87 extended precision has padding after the value
+      constexpr std::size_t kSize = std::numeric_limits<T>::digits == 64 ? 10 : sizeof(T);
+      return std::memcmp(&lhs, &rhs, kSize) == 0;
+    } else {
+      return lhs == rhs;
+    }
+  }
 };
 
 template <typename T, bool IsFloating = std::is_floating_point_v<T>>
-- 
2.43.0


From 319917cb901c058235db6ff6273d8939d6f19216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 13/29] fix: arithmetic of a fiber atomic of signed type wraps
 around

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 57 ++++++++++++++------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 1380aa2..e94885e 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -122,41 +122,58 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
   T fetch_add(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value = Add(val, arg);
     return val;
   }
   T fetch_add(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value = Add(val, arg);
     return val;
   }
 
   T fetch_sub(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = Sub(val, arg);
     return val;
   }
   T fetch_sub(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = Sub(val, arg);
     return val;
   }
 
   T operator+=(T arg) noexcept {
-    return _value += arg;
+    return _value = Add(_value, arg);
   }
   T operator+=(T arg) volatile noexcept {
-    return _value += arg;
+    return _value = Add(_value, arg);
   }
 
   T operator-=(T arg) noexcept {
-    return _value -= arg;
+    return _value = Sub(_value, arg);
   }
   T operator-=(T arg) volatile noexcept {
-    return _value -= arg;
+    return _value = Sub(_value, arg);
   }
 
  protected:
+  // arithmetic on signed atomics wraps around
+  static T Add(T lhs, T rhs) noexcept {
+    if constexpr (std::is_integral_v<T>) {
+      using Unsigned = std::make_unsigned_t<T>;
+      return static_cast<T>(static_cast<Unsigned>(lhs) + static_cast<Unsigned>(rhs));
+    } else {
+      return lhs + rhs;
+    }
+  }
+  static T Sub(T lhs, T rhs) noexcept {
+    if constexpr (std::is_integral_v<T>) {
+      using Unsigned = std::make_unsigned_t<T>;
+      return static_cast<T>(static_cast<Unsigned>(lhs) - static_cast<Unsigned>(rhs));
+    } else {
+      return lhs - rhs;
+    }
+  }
   using Base::_value;
 };
 
@@ -209,31 +226,39 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return ++_value;
+    return _value = Base::Add(_value, T{1});
   }
   T operator++() volatile noexcept {
-    return ++_value;
+    return _value = Base::Add(_value, T{1});
   }
 
   T operator++(int) noexcept {
-    return _value++;
+    auto val = _value;
+    _value = Base::Add(val, T{1});
+    return val;
   }
   T operator++(int) volatile noexcept {
-    return _value++;
+    auto val = _value;
+    _value = Base::Add(val, T{1});
+    return val;
   }
 
   T operator--() noexcept {
-    return --_value;
+    return _value = Base::Sub(_value, T{1});
   }
   T operator--() volatile noexcept {
-    return --_value;
+    return _value = Base::Sub(_value, T{1});
   }
 
   T operator--(int) noexcept {
-    return _value--;
+    auto val = _value;
+    _value = Base::Sub(val, T{1});
+    return val;
   }
   T operator--(int) volatile noexcept {
-    return _value--;
+    auto val = _value;
+    _value = Base::Sub(val, T{1});
+    return val;
   }
 
   T operator&=(T arg) noexcept {
-- 
2.43.0


From ed8e6b7393fc01c1100b524d253bddf1f4851b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 14/29] fix: a default constructed fiber atomic is
 value-initialized

---
 include/yaclib/fault/detail/fiber/atomic_wait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic_wait.hpp b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
index 1c0341a..d6beaa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic_wait.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
@@ -60,7 +60,7 @@ class AtomicWait {
 #endif
 
  protected:
-  T _value;
+  T _value{};
 #if YACLIB_FUTEX != 0
   FiberQueue _queue;
 #endif
-- 
2.43.0


From b07e7b2e9b38011605833e3ef1f1d6fa0c606410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 15/29] fix: an injected compare_exchange_weak failure loads
 with a valid memory order

---
 include/yaclib/fault/detail/atomic.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index c1a86c1..17667ba 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -81,7 +81,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -90,7 +90,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   bool compare_exchange_weak(T& expected, T desired,
                              std::memory_order order = std::memory_order_seq_cst) volatile noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -114,6 +114,17 @@ class AtomicBase : public AtomicWait<Impl, T> {
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_strong(expected, desired, order));
     return r;
   }
+
+ private:
+  static constexpr std::memory_order FailureOrder(std::memory_order order) noexcept {
+    if (order == std::memory_order_acq_rel) {
+      return std::memory_order_acquire;
+    }
+    if (order == std::memory_order_release) {
+      return std::memory_order_relaxed;
+    }
+    return order;
+  }
 };
 
 template <typename Impl, typename T, bool IsFloating = std::is_floating_point_v<T>>
-- 
2.43.0


From 969f23a45c67ae55d059da45167d847d70a43fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 16/29] fix: assignment of a value to yaclib_std::atomic is one
 atomic store

---
 include/yaclib/fault/detail/atomic.hpp       | 6 ++++++
 include/yaclib/fault/detail/fiber/atomic.hpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 17667ba..780e83f 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -133,6 +133,7 @@ class AtomicFloatingBase : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -141,6 +142,7 @@ class AtomicFloatingBase<Impl, T, true> : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_add(arg, order));
@@ -185,6 +187,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -193,6 +196,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_and(arg, order));
@@ -291,6 +295,7 @@ class Atomic : public AtomicIntegralBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename U>
@@ -299,6 +304,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto* r = Impl::fetch_add(arg, order));
diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index e94885e..6c86942 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -16,6 +16,7 @@ class AtomicBase : public AtomicWait<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
   using Base::is_always_lock_free;
   using Base::is_lock_free;
 
@@ -111,6 +112,7 @@ class AtomicFloatingBase : public AtomicBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename T>
@@ -119,6 +121,7 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order) noexcept {
     auto val = _value;
@@ -183,6 +186,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename T>
@@ -191,6 +195,7 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
@@ -292,6 +297,7 @@ class Atomic : public AtomicIntegralBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename U>
@@ -300,6 +306,7 @@ class Atomic<U*> : public AtomicBase<U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order) noexcept {
     auto val = _value;
-- 
2.43.0


From bcdf6bf370bd39279fdeffd5b08ce1c4a770e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 17/29] fix: a fiber woken up before its time never leaves an
 empty sleep list behind

---
 src/fault/fiber/scheduler.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 05b175b..ef1b4f7 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -125,13 +125,10 @@ void Scheduler::Sleep(std::uint64_t ns) {
 void Scheduler::SleepPreemptive(std::uint64_t ns) {
   ns += detail::GetRandNumber(GetFaultSleepTime());
   Sleep(ns);
-  // <= because wakeup called before time adjustment
-  if (_time <= ns) {
-    auto it = _sleep_list.find(ns);
-    YACLIB_DEBUG(it == _sleep_list.end(), "sleep_list for time that is not passed yet isn't found");
-    if (it->second.Empty()) {
-      _sleep_list.erase(ns);
-    }
+  // a fiber that was woken up before its time leaves an empty list behind
+  auto it = _sleep_list.find(ns);
+  if (it != _sleep_list.end() && it->second.Empty()) {
+    _sleep_list.erase(it);
   }
 }
 
-- 
2.43.0


From ee6627235cfba7e3d7d4816a8add6dc2a7ba38a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 18/29] fix: unlock of a fiber recursive_mutex wakes a waiter

---
 src/fault/fiber/recursive_mutex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault/fiber/recursive_mutex.cpp b/src/fault/fiber/recursive_mutex.cpp
index 8598ff1..5d746ae 100644
--- a/src/fault/fiber/recursive_mutex.cpp
+++ b/src/fault/fiber/recursive_mutex.cpp
@@ -4,7 +4,7 @@
 namespace yaclib::detail::fiber {
 
 void RecursiveMutex::lock() {
-  if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+  while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
     _queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -23,6 +23,7 @@ void RecursiveMutex::unlock() noexcept {
   _occupied_count--;
   if (_occupied_count == 0) {
     _owner_id = 0;
+    _queue.NotifyOne();
   }
 }
 void RecursiveMutex::LockHelper() {
-- 
2.43.0


From 121c421e40056c143a752679a0119d6e31c2472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 19/29] fix: fiber shared_mutex never admits incompatible
 holders and wakes its waiters

---
 src/fault/fiber/shared_mutex.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index 8e9b7f3..e293572 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -1,11 +1,9 @@
-#include <fault/util.hpp>
-
 #include <yaclib/fault/detail/fiber/shared_mutex.hpp>
 
 namespace yaclib::detail::fiber {
 
 void fiber::SharedMutex::lock() {
-  if (_occupied) {
+  while (_occupied) {
     _exclusive_queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -20,18 +18,15 @@ bool SharedMutex::try_lock() noexcept {
 }
 
 void SharedMutex::unlock() noexcept {
-  const bool unlock_shared = !_shared_queue.Empty() && (_exclusive_queue.Empty() || GetRandNumber(2) == 0);
   _occupied = false;
-  if (unlock_shared) {
-    _shared_queue.NotifyAll();
-  } else {
-    _exclusive_queue.NotifyOne();
-  }
+  // the scheduler decides who is the first, the others see that the mutex is occupied and wait again
+  _shared_queue.NotifyAll();
+  _exclusive_queue.NotifyOne();
 }
 
 void SharedMutex::lock_shared() {
-  if (_occupied && _exclusive_mode) {
-    _exclusive_queue.Wait(NoTimeoutTag{});
+  while (_occupied && _exclusive_mode) {
+    _shared_queue.Wait(NoTimeoutTag{});
   }
   SharedLockHelper();
 }
-- 
2.43.0


From 7b0368656fd627df07eb85dceda97db5742fad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 20/29] fix: timed acquisitions of the fiber mutexes wait until
 the mutex is free or the deadline passed

---
 .../detail/fiber/recursive_timed_mutex.hpp    | 23 ++++++++------
 .../fault/detail/fiber/shared_timed_mutex.hpp | 31 +++++++++++--------
 .../yaclib/fault/detail/fiber/timed_mutex.hpp | 18 +++++------
 3 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
index 629f7bf..293e779 100644
--- a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
@@ -13,7 +13,7 @@ class RecursiveTimedMutex : public RecursiveMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration);
   }
 
   template <typename Clock, typename Duration>
@@ -23,17 +23,20 @@ class RecursiveTimedMutex : public RecursiveMutex {
 
  private:
   template <typename Timeout>
-  bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+  bool TimedWaitHelper(const Timeout& deadline) {
+    auto status = WaitStatus::Ready;
+    while (IsOccupied() && status == WaitStatus::Ready) {
+      status = _queue.Wait(deadline);
     }
-    YACLIB_DEBUG(r && (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()),
-                 "about to be locked twice and not in a good way");
-    if (r) {
-      LockHelper();
+    if (IsOccupied()) {
+      return false;
     }
-    return r;
+    LockHelper();
+    return true;
+  }
+
+  [[nodiscard]] bool IsOccupied() const {
+    return _occupied_count != 0 && _owner_id != fault::Scheduler::GetId();
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
index 333e13c..ab1b90c 100644
--- a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
@@ -14,7 +14,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, true);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration, true);
   }
 
   template <typename Clock, typename Duration>
@@ -24,7 +24,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, false);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration, false);
   }
 
   template <typename Clock, typename Duration>
@@ -34,20 +34,25 @@ class SharedTimedMutex : public SharedMutex {
 
  private:
   template <typename Timeout>
-  bool TimedWaitHelper(const Timeout& timeout, bool exclusive) {
-    bool r = true;
-    if (_occupied && (exclusive || _exclusive_mode)) {
-      if (exclusive) {
-        r = _exclusive_queue.Wait(timeout) == WaitStatus::Ready;
-      } else {
-        r = _shared_queue.Wait(timeout) == WaitStatus::Ready;
-      }
+  bool TimedWaitHelper(const Timeout& deadline, bool exclusive) {
+    auto& queue = exclusive ? _exclusive_queue : _shared_queue;
+    auto status = WaitStatus::Ready;
+    while (IsOccupied(exclusive) && status == WaitStatus::Ready) {
+      status = queue.Wait(deadline);
     }
-    YACLIB_DEBUG(r && _occupied && (exclusive || _exclusive_mode), "about to be locked twice and not in a good way");
-    if (r) {
+    if (IsOccupied(exclusive)) {
+      return false;
+    }
+    if (exclusive) {
+      LockHelper();
+    } else {
       SharedLockHelper();
     }
-    return r;
+    return true;
+  }
+
+  [[nodiscard]] bool IsOccupied(bool exclusive) const noexcept {
+    return _occupied && (exclusive || _exclusive_mode);
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/timed_mutex.hpp b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
index c712e47..83212ca 100644
--- a/include/yaclib/fault/detail/fiber/timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
@@ -13,7 +13,7 @@ class TimedMutex : public Mutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration);
   }
 
   template <typename Clock, typename Duration>
@@ -23,16 +23,16 @@ class TimedMutex : public Mutex {
 
  private:
   template <typename Timeout>
-  bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+  bool TimedWaitHelper(const Timeout& deadline) {
+    auto status = WaitStatus::Ready;
+    while (_occupied && status == WaitStatus::Ready) {
+      status = _queue.Wait(deadline);
     }
-    YACLIB_DEBUG(r && _occupied, "about to be locked twice");
-    if (r) {
-      _occupied = true;
+    if (_occupied) {
+      return false;
     }
-    return r;
+    _occupied = true;
+    return true;
   }
 };
 
-- 
2.43.0


From 5f12af07e74efc517b87deef0f1299d6808a8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 21/29] fix: wait_for with a predicate of the fiber
 condition_variable ends after its duration

---
 include/yaclib/fault/detail/fiber/condition_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/condition_variable.hpp b/include/yaclib/fault/detail/fiber/condition_variable.hpp
index fb7cabe..034fbf8 100644
--- a/include/yaclib/fault/detail/fiber/condition_variable.hpp
+++ b/include/yaclib/fault/detail/fiber/condition_variable.hpp
@@ -46,7 +46,7 @@ class ConditionVariable {
   template <typename Rep, typename Period, typename Predicate>
   bool wait_for(std::unique_lock<yaclib::detail::fiber::Mutex>& lock,
                 const std::chrono::duration<Rep, Period>& duration, Predicate predicate) {
-    return WaitImplWithPredicate(lock, duration, predicate);
+    return WaitImplWithPredicate(lock, SystemClock::now() + duration, predicate);
   }
 
   using native_handle_type = std::condition_variable::native_handle_type;
-- 
2.43.0


From 22071a68b8be7f56b2b72b7ff838dbb7b6f775f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 22/29] fix: waiting until a time before the epoch of the
 virtual clock ends at once

---
 include/yaclib/fault/detail/fiber/queue.hpp | 4 ++--
 include/yaclib_std/detail/this_thread.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/queue.hpp b/include/yaclib/fault/detail/fiber/queue.hpp
index 069db0c..daeebc3 100644
--- a/include/yaclib/fault/detail/fiber/queue.hpp
+++ b/include/yaclib/fault/detail/fiber/queue.hpp
@@ -30,8 +30,8 @@ class FiberQueue final {
     auto* queue_node = static_cast<BiNodeWaitQueue*>(fiber);
     _queue.PushBack(queue_node);
     auto* scheduler = fault::Scheduler::GetScheduler();
-    scheduler->SleepPreemptive(
-      std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count());
+    auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count();
+    scheduler->SleepPreemptive(ns > 0 ? ns : 0);
     bool res = queue_node->Erase();
     return res ? WaitStatus::Timeout : WaitStatus::Ready;
   }
diff --git a/include/yaclib_std/detail/this_thread.hpp b/include/yaclib_std/detail/this_thread.hpp
index 7c45eed..3a03ed6 100644
--- a/include/yaclib_std/detail/this_thread.hpp
+++ b/include/yaclib_std/detail/this_thread.hpp
@@ -9,8 +9,8 @@ namespace yaclib_std::this_thread {
 
 template <typename Clock, typename Duration>
 inline void sleep_until(const std::chrono::time_point<Clock, Duration>& sleep_time) {
-  std::uint64_t timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
-  yaclib::fault::Scheduler::GetScheduler()->Sleep(timeout);
+  auto timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
+  yaclib::fault::Scheduler::GetScheduler()->Sleep(timeout > 0 ? timeout : 0);
 }
 
 template <typename Rep, typename Period>
-- 
2.43.0


From 91352ad0d5caae8240a782ef457069dc3dd36c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 23/29] fix: a joined, detached, moved from or default
 constructed fiber thread is not joinable

---
 src/fault/fiber/thread.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fault/fiber/thread.cpp b/src/fault/fiber/thread.cpp
index 4269861..dd463b0 100644
--- a/src/fault/fiber/thread.cpp
+++ b/src/fault/fiber/thread.cpp
@@ -16,14 +16,14 @@ void Thread::swap(Thread& t) noexcept {
 }
 
 bool Thread::joinable() const noexcept {
-  return get_id() != fault::Scheduler::GetId();
+  return _impl != nullptr;
 }
 
 void Thread::join() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
+  if (get_id() == fault::Scheduler::GetId()) {
     throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
   }
 
@@ -39,9 +39,6 @@ void Thread::detach() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
-    throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
-  }
   AfterJoinOrDetach();
 }
 
-- 
2.43.0


From bcbfcbdb85b731efa8a8e800b7e1dda4c1cbafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 24/29] fix: thread local pointers of different types do not
 share a value under fibers

---
 include/yaclib/fault/detail/fiber/thread_local_proxy.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index c3944a7..074e63c 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <cstdint>
+
 namespace yaclib::detail::fiber {
 
 void* GetImpl(std::uint64_t i);
@@ -8,10 +11,11 @@ void Set(void* new_value, std::uint64_t i);
 
 void SetDefault(void* new_value, std::uint64_t i);
 
+// common for all types, because they share the storage of the fiber
+inline std::uint64_t sNextFreeIndex = 0;
+
 template <typename Type>
 class ThreadLocalPtrProxy final {
-  inline static std::uint64_t sNextFreeIndex = 0;
-
  public:
   ThreadLocalPtrProxy() noexcept : _i(sNextFreeIndex++) {
   }
-- 
2.43.0


From f31b7d3001834328c00d6bc8aa7a7710c40732de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 25/29] fix: assignment of a thread local pointer to another
 one changes it only in the current fiber

---
 .../fault/detail/fiber/thread_local_proxy.hpp | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index 074e63c..4a50979 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -25,10 +25,11 @@ class ThreadLocalPtrProxy final {
       SetDefault(value, _i);
     }
   }
-  ThreadLocalPtrProxy(ThreadLocalPtrProxy&& other) noexcept : _i(other._i) {
+  ThreadLocalPtrProxy(ThreadLocalPtrProxy&& other) noexcept : _i(sNextFreeIndex++) {
+    SetDefault(other.Get(), _i);
   }
   ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(sNextFreeIndex++) {
-    SetDefault(GetImpl(other._i), _i);
+    SetDefault(other.Get(), _i);
   }
 
   ThreadLocalPtrProxy& operator=(Type* value) noexcept {
@@ -36,34 +37,28 @@ class ThreadLocalPtrProxy final {
     return *this;
   }
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy& other) noexcept {
-    if (this->Get() == other.Get()) {
-      return *this;
-    }
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   template <typename U>
-  ThreadLocalPtrProxy(ThreadLocalPtrProxy<U>&& other) noexcept : _i(other._i) {
+  ThreadLocalPtrProxy(ThreadLocalPtrProxy<U>&& other) noexcept : _i(sNextFreeIndex++) {
+    SetDefault(other.Get(), _i);
   }
   template <typename U>
   ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(sNextFreeIndex++) {
-    SetDefault(GetImpl(other._i), _i);
+    SetDefault(other.Get(), _i);
   }
 
   template <typename U>
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy<U>&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   template <typename U>
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy<U>& other) noexcept {
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   Type& operator*() const noexcept {
-- 
2.43.0


From be062ebfae5a005b6a3d6ee6e14595b4903d30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 26/29] fix: SetSeed resets the random count, it counts the
 numbers drawn since the seed

---
 src/fault/util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 4f2dd0e..3f16894 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -13,6 +13,9 @@ static thread_local std::mt19937_64 eng{sSeed};
 void SetSeed(std::uint32_t new_seed) {
   sSeed = new_seed;
   eng.seed(new_seed);
+#if YACLIB_FAULT == 2
+  sRandCount = 0;
+#endif
 }
 
 std::uint32_t GetSeed() {
-- 
2.43.0


From f9e5c23db4e64ed7ae07e9d9cfdc39f368615782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 27/29] fix: a fiber thread passes the arguments to the thread
 function

---
 include/yaclib/fault/detail/fiber/fiber.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/fiber.hpp b/include/yaclib/fault/detail/fiber/fiber.hpp
index e4a000b..7822e8a 100644
--- a/include/yaclib/fault/detail/fiber/fiber.hpp
+++ b/include/yaclib/fault/detail/fiber/fiber.hpp
@@ -21,7 +21,7 @@ class Fiber final : public FiberBase {
     auto& fiber = *reinterpret_cast<Fiber*>(arg);
     fiber.Start();
     try {
-      Helper(fiber._func, std::index_sequence_for<FuncState<Args...>>{});
+      Helper(fiber._func, std::index_sequence_for<Args...>{});
     } catch (...) {
       fiber._exception = std::current_exception();
     }
-- 
2.43.0


From 04553208f1fda566e3211fe5db0435125aa16df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 28/29] fix: timed waits without a predicate of
 yaclib_std::condition_variable link

---
 .../yaclib/fault/detail/condition_variable.hpp    | 12 ++++++++++--
 src/fault/condition_variable.cpp                  | 15 ---------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/condition_variable.hpp b/include/yaclib/fault/detail/condition_variable.hpp
index 8816de9..57bb799 100644
--- a/include/yaclib/fault/detail/condition_variable.hpp
+++ b/include/yaclib/fault/detail/condition_variable.hpp
@@ -11,8 +11,16 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus);
-constexpr std::cv_status CVStatusFrom(std::cv_status);
+constexpr std::cv_status CVStatusFrom(WaitStatus status) {
+  if (status == WaitStatus::Ready) {
+    return std::cv_status::no_timeout;
+  }
+  return std::cv_status::timeout;
+}
+
+constexpr std::cv_status CVStatusFrom(std::cv_status status) {
+  return status;
+}
 
 // TODO(myannyax) unite with ConditionVariableAny
 
diff --git a/src/fault/condition_variable.cpp b/src/fault/condition_variable.cpp
index c5f1d5d..acb7088 100644
--- a/src/fault/condition_variable.cpp
+++ b/src/fault/condition_variable.cpp
@@ -1,16 +1 @@
 #include <yaclib/fault/detail/condition_variable.hpp>
-
-namespace yaclib::detail {
-
-constexpr std::cv_status CVStatusFrom(WaitStatus status) {
-  if (status == WaitStatus::Ready) {
-    return std::cv_status::no_timeout;
-  }
-  return std::cv_status::timeout;
-}
-
-constexpr std::cv_status CVStatusFrom(std::cv_status status) {
-  return status;
-}
-
-}  // namespace yaclib::detail
-- 
2.43.0


From 87ffccc3e0ecaf25cea9e69f9e2580d400a8cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 29/29] fix: ForwardToFaultRandomCount forwards to the supplied
 random count, not by it

---
 src/fault/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 3f16894..57d8fcf 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -39,7 +39,7 @@ std::uint64_t GetRandCount() {
 
 void ForwardToRandCount([[maybe_unused]] std::uint64_t random_count) {
 #if YACLIB_FAULT == 2
-  for (std::uint64_t i = 0; i != random_count; ++i) {
+  while (sRandCount < random_count) {
     GetRandNumber(1);
   }
 #endif
-- 
2.43.0

