From fe40a3798bd0af5041a32a7df054db031b613a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 01/23] fix: synchronize with released references before moving
 out of a uniquely held future

---
 include/stlab/concurrency/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..1a929f8 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -219,7 +219,11 @@ struct result_of_when_any_t {
 
 template <class T>
 auto unique_usage(const std::shared_ptr<T>& p) -> bool {
-    return p.use_count() == 1;
+    if (p.use_count() != 1) return false;
+    // use_count() is a relaxed load. Synchronize with the owners that released their reference, so
+    // that whatever they read from the shared state happens before it is moved from.
+    std::atomic_thread_fence(std::memory_order_acquire);
+    return true;
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 3474fee9e9420849fe1b1985846159c154fa37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 02/23] fix: break the promise of a packaged_task that is
 replaced by move assignment

---
 include/stlab/concurrency/future.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 1a929f8..1a7a770 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -669,7 +669,12 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        // The task being replaced can no longer be invoked, destroying it breaks its promise.
+        packaged_task tmp{std::move(x)};
+        _p.swap(tmp._p);
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From f63c792741474bbd746835c38fe74d89cd282d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 03/23] fix: do not lose the wakeup of an idle pool thread for
 a task pushed to a blocked or contended queue

---
 .../stlab/concurrency/default_executor.hpp    | 100 +++++++++++++-----
 1 file changed, 75 insertions(+), 25 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 351b622..900fe96 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -196,25 +196,29 @@ public:
         _ready.notify_one();
     }
 
-    // If wait() is waiting, wake and return true, otherwise return false
+    // If between `prepare()` and the end of `wait()`, wake and return true, otherwise return false
     bool wake() {
         {
-            lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting) return false;
+            lock_t lock{_mutex};
+            if (!_waiting) return false;
             _waiting = false;
         }
         _ready.notify_one();
         return true;
     }
 
-    // Will wait until `wake()` or `done()` returns true if done
-    bool wait() {
+    // Announces a `wait()`. A `wake()` from here on is not lost.
+    void prepare() {
         lock_t lock{_mutex};
         _waiting = true;
+    }
+
+    // Will wait until `wake()` or `done()` returns true if done (and not woken)
+    bool wait() {
+        lock_t lock{_mutex};
         while (_waiting && !_done)
             _ready.wait(lock);
-        _waiting = false;
-        return _done;
+        return std::exchange(_waiting, false);
     }
 };
 
@@ -261,24 +265,37 @@ public:
         return pop_not_empty();
     }
 
-    // If waiting in `pop()`, wakes and returns true. Otherwise returns false.
+    // As `try_pop()`, but not affected by contention: returns a task if there is one.
+    auto pop_ready() -> task<void() noexcept> {
+        lock_t lock{_mutex};
+        if (_q.empty()) return nullptr;
+        return pop_not_empty();
+    }
+
+    // If between `prepare()` and the end of `pop()`, wakes and returns true. Otherwise returns
+    // false.
     bool wake() {
         {
-            lock_t lock{_mutex, std::try_to_lock};
-            if (!lock || !_waiting) return false;
+            lock_t lock{_mutex};
+            if (!_waiting) return false;
             _waiting = false; // triggers wake
         }
         _ready.notify_one();
         return true;
     }
 
-    auto pop() -> std::pair<bool, task<void() noexcept>> {
+    // Announces a `pop()`. A `wake()` from here on is not lost.
+    void prepare() {
         lock_t lock{_mutex};
         _waiting = true;
+    }
+
+    auto pop() -> std::pair<bool, task<void() noexcept>> {
+        lock_t lock{_mutex};
         while (_q.empty() && !_done && _waiting)
             _ready.wait(lock);
-        _waiting = false;
-        if (_q.empty()) return {_done, nullptr};
+        bool woken = !std::exchange(_waiting, false);
+        if (_q.empty()) return {_done && !woken, nullptr};
         return {false, pop_not_empty()};
     }
 
@@ -290,26 +307,32 @@ public:
         _ready.notify_one();
     }
 
+    // On success sets `woken` to true iff a wait in `pop()` was ended.
     template <typename F>
-    bool try_push(F&& f, std::size_t priority) {
+    bool try_push(F&& f, std::size_t priority, bool& woken) {
         {
             lock_t lock{_mutex, std::try_to_lock};
             if (!lock) return false;
             _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
             std::push_heap(begin(_q), end(_q), element_t::greater());
+            woken = std::exchange(_waiting, false);
         }
         _ready.notify_one();
         return true;
     }
 
+    // Returns true iff a wait in `pop()` was ended.
     template <typename F>
-    void push(F&& f, std::size_t priority) {
+    bool push(F&& f, std::size_t priority) {
+        bool woken;
         {
             lock_t lock{_mutex};
             _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
             std::push_heap(begin(_q), end(_q), element_t::greater());
+            woken = std::exchange(_waiting, false);
         }
         _ready.notify_one();
+        return woken;
     }
 };
 
@@ -342,6 +365,18 @@ class priority_task_system {
     using lock_t = std::unique_lock<std::mutex>;
     std::vector<std::thread> _threads;
     std::vector<waiter> _waiters{_thread_limit - _count};
+    // The number of threads which are waiting, or about to wait, for a task.
+    std::atomic<unsigned> _idle{0};
+
+    // Returns a task if there is one in any queue. A thread must look here after announcing that it
+    // is going to wait: an `execute()` it does not see here will see the announcement.
+    auto pop_ready(std::size_t i) -> task<void() noexcept> {
+        task<void() noexcept> f;
+        for (unsigned n = 0; n != _count && !f; ++n) {
+            f = _q[(i + n) % _count].pop_ready();
+        }
+        return f;
+    }
 
     void run(unsigned i) {
         stlab::set_current_thread_name("cc.stlab.default_executor");
@@ -352,8 +387,13 @@ class priority_task_system {
                 f = _q[(i + n) % _count].try_pop();
             }
             if (!f) {
-                bool done;
-                std::tie(done, f) = _q[i].pop();
+                bool done{false};
+                ++_idle;
+                _q[i].prepare();
+                f = pop_ready(i);
+                if (f) _q[i].wake(); // not going to wait
+                else std::tie(done, f) = _q[i].pop();
+                --_idle;
                 if (done) break;
             }
             if (f) f(); // we can wake with no task.
@@ -399,11 +439,15 @@ public:
         static_assert(P < 3, "More than 3 priorities are not known!");
         auto i = _index++;
 
-        for (unsigned n = 0; n != _count; ++n) {
-            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P)) return;
+        bool woken{false};
+        bool pushed{false};
+        for (unsigned n = 0; n != _count && !pushed; ++n) {
+            pushed = _q[(i + n) % _count].try_push(std::forward<F>(f), P, woken);
         }
+        if (!pushed) woken = _q[i % _count].push(std::forward<F>(f), P);
 
-        _q[i % _count].push(std::forward<F>(f), P);
+        // The worker of the queue may be busy, or blocked in a task that waits for this one.
+        if (!woken && _idle != 0) wake();
     }
 
     void add_thread() {
@@ -419,12 +463,18 @@ public:
                     f = _q[(i + n) % _count].try_pop();
                 }
 
-                if (f) {
-                    f(); // we can wake with no task.
-                    continue;
+                if (!f) {
+                    bool done{false};
+                    ++_idle;
+                    _waiters[i - _count].prepare();
+                    f = pop_ready(i);
+                    if (f) _waiters[i - _count].wake(); // not going to wait
+                    else done = _waiters[i - _count].wait();
+                    --_idle;
+                    if (done) break;
                 }
-                if (_waiters[i - _count].wait()) break;
-            };
+                if (f) f(); // we can wake with no task.
+            }
         });
     }
 
-- 
2.43.0


From 7223326d4cdcbe699a1809da07ac19c45384aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 04/23] fix: join threads added while the pool is shut down and
 drop tasks that arrive afterwards

---
 .../stlab/concurrency/default_executor.hpp    | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 900fe96..0de2f92 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -367,6 +367,7 @@ class priority_task_system {
     std::vector<waiter> _waiters{_thread_limit - _count};
     // The number of threads which are waiting, or about to wait, for a task.
     std::atomic<unsigned> _idle{0};
+    std::atomic_bool _joined{false};
 
     // Returns a task if there is one in any queue. A thread must look here after announcing that it
     // is going to wait: an `execute()` it does not see here will see the announcement.
@@ -378,6 +379,11 @@ class priority_task_system {
         return f;
     }
 
+    void drop_tasks() {
+        while (pop_ready(0))
+            ;
+    }
+
     void run(unsigned i) {
         stlab::set_current_thread_name("cc.stlab.default_executor");
         while (true) {
@@ -424,14 +430,24 @@ public:
             e.done();
         for (auto& e : _waiters)
             e.done();
-        for (auto& e : _threads)
-            e.join();
 
-        _q.clear();
+        // Tasks which are still running may add threads.
+        for (std::size_t n = 0;; ++n) {
+            std::thread t;
+            {
+                lock_t lock{_mutex};
+                if (n == _threads.size()) break;
+                t = std::move(_threads[n]);
+            }
+            t.join();
+        }
+
+        _joined = true;
+        drop_tasks();
     }
 
     ~priority_task_system() {
-        assert(_q.empty() && "stlab: Thread pool not joined prior to destruction.");
+        assert(_joined && "stlab: Thread pool not joined prior to destruction.");
     }
 
     template <std::size_t P, typename F>
@@ -446,6 +462,9 @@ public:
         }
         if (!pushed) woken = _q[i % _count].push(std::forward<F>(f), P);
 
+        // Nothing runs the tasks which arrive too late, from a timer for example.
+        if (_joined) drop_tasks();
+
         // The worker of the queue may be busy, or blocked in a task that waits for this one.
         if (!woken && _idle != 0) wake();
     }
-- 
2.43.0


From 1384f8775e3dc52511842c12353b4605a5024b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 05/23] fix: an executor for delayed execution applies to every
 task it is given

---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From 02aaa8470dbfeb340762e4c2c65d50c1feea469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 06/23] fix: release the cancelled inputs of when_all and
 when_any without holding their lock

---
 include/stlab/concurrency/future.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 1a7a770..9a6549b 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1096,10 +1096,12 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
+            // Cancelling an input destroys its task, which may break the promise of another input.
+            // Hence the lock must not be held when the inputs are released.
+            decltype(_holds) holds;
             std::unique_lock<std::mutex> lock{_guard};
             if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
+                std::swap(holds, _holds);
                 _exception = error;
                 run = true;
             }
@@ -1434,11 +1436,14 @@ struct single_trigger {
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
         {
+            // Cancelling an input destroys its task, which may break the promise of another input.
+            // Hence the lock must not be held when the inputs are released.
+            std::vector<future<void>> holds;
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
-                for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
-                }
+                holds.resize(context._holds.size());
+                std::swap(holds, context._holds);
+                std::swap(holds[index], context._holds[index]);
                 context._single_event = true;
                 context.apply(std::forward<F>(f), index);
                 run = true;
-- 
2.43.0


From 381572be5bf099037affa3bb19c0afa8887e1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 07/23] fix: do not move the executor of when_any over void
 futures away with its first input

---
 include/stlab/concurrency/future.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 9a6549b..f24b7e4 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1298,16 +1298,16 @@ struct make_when_any {
 template <>
 struct make_when_any<void> {
     template <class E, class F, class... Ts>
-    static auto make(E&& executor, F&& f, future<Ts>... args) {
+    static auto make(const E& executor, F f, future<Ts>... args) {
         using result_t = detail::result_t<F, size_t>;
 
         auto shared = std::make_shared<detail::when_any_shared<sizeof...(Ts), void>>();
-        auto p = package<result_t()>(executor, [_f = std::forward<F>(f), _p = shared]() mutable {
+        auto p = package<result_t()>(executor, [_f = std::move(f), _p = shared]() mutable {
             return detail::apply_when_any_arg(_f, _p);
         });
         shared->_f = std::move(p.first);
 
-        detail::attach_when_args(std::forward<E>(executor), shared, std::move(args)...);
+        detail::attach_when_args(executor, shared, std::move(args)...);
 
         return std::move(p.second);
     }
-- 
2.43.0


From 83e5662c4836f0be87c14055d41956c55055837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 08/23] fix: resolve when_all and when_any if their executor
 abandons the continuation of an input

---
 include/stlab/concurrency/future.hpp | 57 ++++++++++++++++++----------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index f24b7e4..76f6272 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1227,16 +1227,24 @@ auto apply_when_any_arg(F& f, P& p) {
 template <std::size_t i, class E, class P, class T>
 void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
     auto holds =
-        std::move(a).recover(std::forward<E>(executor), [_w = std::weak_ptr<P>(shared)](auto&& x) {
-            auto p = _w.lock();
-            if (!p) return;
-
-            if (auto ex = x.exception()) {
-                p->failure(std::move(ex));
-            } else {
-                p->template done<i>(std::move(x));
-            }
-        });
+        std::move(a)
+            .recover(std::forward<E>(executor),
+                     [_w = std::weak_ptr<P>(shared)](auto&& x) {
+                         auto p = _w.lock();
+                         if (!p) return;
+
+                         if (auto ex = x.exception()) {
+                             p->failure(std::move(ex));
+                         } else {
+                             p->template done<i>(std::move(x));
+                         }
+                     })
+            // The executor may abandon the task
+            .recover(immediate_executor, [_w = std::weak_ptr<P>(shared)](future<void>&& x) {
+                auto ex = x.exception();
+                if (!ex) return;
+                if (auto p = _w.lock()) p->failure(std::move(ex));
+            });
     std::unique_lock<std::mutex> lock{shared->_guard};
     shared->_holds[i] = std::move(holds);
 }
@@ -1516,16 +1524,25 @@ struct common_context : CR {
 
 template <class C, class E, class T>
 void attach_tasks(size_t index, E&& executor, const std::shared_ptr<C>& context, T&& a) {
-    auto&& hold = std::forward<T>(a).recover(
-        std::forward<E>(executor), [_context = make_weak_ptr(context), _i = index](const auto& x) {
-            auto p = _context.lock();
-            if (!p) return;
-            if (auto ex = x.exception()) {
-                p->failure(std::move(ex), _i);
-            } else {
-                p->done(std::move(x), _i);
-            }
-        });
+    auto&& hold =
+        std::forward<T>(a)
+            .recover(std::forward<E>(executor),
+                     [_context = make_weak_ptr(context), _i = index](const auto& x) {
+                         auto p = _context.lock();
+                         if (!p) return;
+                         if (auto ex = x.exception()) {
+                             p->failure(std::move(ex), _i);
+                         } else {
+                             p->done(std::move(x), _i);
+                         }
+                     })
+            // The executor may abandon the task
+            .recover(immediate_executor,
+                     [_context = make_weak_ptr(context), _i = index](const future<void>& x) {
+                         auto ex = x.exception();
+                         if (!ex) return;
+                         if (auto p = _context.lock()) p->failure(std::move(ex), _i);
+                     });
 
     std::unique_lock<std::mutex> guard(context->_guard);
     context->_holds[index] = std::move(hold);
-- 
2.43.0


From d637bb2ec38251a748ae1cf3f9f7c512b883b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 09/23] fix: a wait must not fail if no thread can be added to
 the pool

---
 include/stlab/concurrency/default_executor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 0de2f92..217a757 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -31,6 +31,7 @@
 #include <atomic>
 #include <climits>
 #include <condition_variable>
+#include <system_error>
 #include <thread>
 #include <vector>
 #endif
@@ -472,7 +473,7 @@ public:
     void add_thread() {
         lock_t lock{_mutex};
         if (_threads.size() == _thread_limit) return; // log with cerr
-        _threads.emplace_back([&, i = _threads.size()] {
+        auto worker = [&, i = _threads.size()] {
             stlab::set_current_thread_name("cc.stlab.default_executor.expansion");
 
             while (true) {
@@ -494,7 +495,14 @@ public:
                 }
                 if (f) f(); // we can wake with no task.
             }
-        });
+        };
+        // The caller is going to wait, and continuations it attached refer to its stack. It must not
+        // unwind because the system is out of threads.
+        try {
+            _threads.emplace_back(std::move(worker));
+        } catch (const std::system_error&) {
+            return; // as if the thread limit were reached
+        }
     }
 
     // returns true if a thread was woken
-- 
2.43.0


From 90424f90fff1c26d3ca887bcf5685bc38bb6b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 10/23] fix: blocking_get_for must return the result of
 await_for

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From 12a62b60b3ff50bb799e09325ac6e2080cddc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 11/23] fix: a timed wait of a process ends exactly once, and
 not by spinning on a lock

A step which could not get the timeout lock rescheduled itself, endlessly on an
immediate executor; a value arriving while the timeout was armed or about to run
could run the process twice or be left unnoticed in the queue.
---
 include/stlab/concurrency/channel.hpp | 107 ++++++++++----------------
 1 file changed, 42 insertions(+), 65 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..e3c67b3 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -616,8 +616,10 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
-            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
-                                                          _shared_process._timeout_function_active);
+            // A value which arrives in time cancels the timeout
+            do_run = !_shared_process._receiver_count &&
+                     (!_shared_process._process_running ||
+                      std::exchange(_shared_process._timeout_active, false));
 
             _shared_process._process_running = _shared_process._process_running || do_run;
         }
@@ -729,7 +731,6 @@ struct shared_process
     using result_t = R;
     using queue_strategy_t = Q;
     using process_t = T;
-    using lock_t = std::unique_lock<std::mutex>;
 
     std::mutex _downstream_mutex;
     downstream<result_t> _downstream;
@@ -746,8 +747,9 @@ struct shared_process
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
-    std::mutex _timeout_function_control;
-    std::atomic_bool _timeout_function_active{false};
+    // The timeout which is armed, if any. Both are protected by _process_mutex.
+    bool _timeout_active = false;
+    std::size_t _timeout_id = 0;
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -910,15 +912,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     !has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -962,27 +955,7 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
@@ -992,15 +965,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1046,33 +1010,46 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
         }
     }
 
+    /*
+        Yield after duration unless a value arrives before. The process is running meanwhile,
+        whoever resets _timeout_active - the timeout or the arriving value - continues it.
+    */
+    void schedule_timeout(std::chrono::nanoseconds duration) {
+        bool do_run;
+        std::size_t id;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            // The queue may have been filled or closed since it was found to be empty
+            do_run = !_queue.empty() || _process_close_queue;
+            _timeout_active = !do_run;
+            id = ++_timeout_id;
+        }
+        if (do_run) {
+            run();
+            return;
+        }
+        execute_at(duration, _executor)(
+            [_weak_this = make_weak_ptr(this->shared_from_this()), id]() noexcept {
+                auto _this = _weak_this.lock();
+                // It may be that the complete channel is gone in the meanwhile
+                if (!_this) return;
+                {
+                    std::unique_lock<std::mutex> lock(_this->_process_mutex);
+                    // we were cancelled
+                    if (!_this->_timeout_active || _this->_timeout_id != id) return;
+                    _this->_timeout_active = false;
+                }
+                _this->try_broadcast();
+            });
+    }
+
     void try_broadcast() {
         try {
             if (_process) broadcast(unwrap(*_process).yield());
-- 
2.43.0


From 2125110a5dbd91f2b6d53c1ce3b5e2305a87e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 12/23] fix: resume a suspended process exactly once

Every receiver of a split called clear_to_send() whenever it took a value, also if
the process was not suspended or already running: it was run twice at a time, ran
although a buffer was full, or was left suspended for ever if a receiver had gone
or had a larger buffer.
---
 include/stlab/concurrency/channel.hpp | 114 +++++++++++++++++---------
 1 file changed, 75 insertions(+), 39 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index e3c67b3..201bdb6 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -632,10 +632,9 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t buffer_size = _shared_process._process_buffer_size;
+        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        return buffer_size - std::min(buffer_size, _shared_process._queue.template queue_size<I>());
     }
 };
 
@@ -674,13 +673,14 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
     }
 
+    // The number of values which can be sent without exceeding the buffer of a receiver. Receivers
+    // which are gone do not count.
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (size() == 0) return 0;
         // std::reduce with C++17
         return std::accumulate(_data.cbegin(), _data.cend(),
                                std::numeric_limits<std::size_t>::max(),
                                [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
+                                   return std::min(val, e.free_buffer().value_or(val));
                                });
     }
 };
@@ -705,8 +705,8 @@ struct downstream<R,
     }
 
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
+        constexpr auto unlimited = std::numeric_limits<std::size_t>::max();
+        return _data ? (*_data).free_buffer().value_or(unlimited) : unlimited;
     }
 };
 
@@ -742,7 +742,14 @@ struct shared_process
     std::mutex _process_mutex;
 
     bool _process_running = false;
-    std::atomic_size_t _process_suspend_count{0};
+    // The process waits for free buffers downstream.
+    bool _process_suspended = false;
+    // A thread is looking for free buffers downstream, and may have to look again.
+    bool _process_clearing = false;
+    bool _process_clear_again = false;
+    // A buffer was freed while the process was running, and the step made because of that.
+    bool _process_cleared = false;
+    bool _process_extra_step = false;
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
@@ -777,6 +784,13 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    // An upstream process may be suspended because of this one.
+    ~shared_process() override {
+        tuple_for_each(_upstream, [](auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
@@ -826,31 +840,63 @@ struct shared_process
         }
     }
 
-    void clear_to_send() override {
+    // Called by the downstream processes whenever they may have a free buffer.
+    void clear_to_send() override { resume(false); }
+
+    /*
+        Resumes the process if it is suspended and there is a free buffer downstream. If this is
+        called at the end of a step (a broadcast is complete) of a process which has more values to
+        yield then one more step may be made at once, as if there were no executor in between.
+    */
+    void resume(bool from_step) {
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
+            if (!_process_suspended) {
+                _process_cleared = true;
+                return;
+            }
+            if (std::exchange(_process_clearing, true)) {
+                _process_clear_again = true;
+                return;
+            }
+        }
+
+        // From here to the reset of _process_clearing no other thread resumes the process.
+        while (true) {
+            bool free_buffer;
+            {
+                std::unique_lock<std::mutex> lock(_downstream_mutex);
+                free_buffer = _downstream.minimum_free_buffer() != 0;
+            }
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            if (free_buffer) break;
+            if (!std::exchange(_process_clear_again, false)) {
+                _process_clearing = false;
                 return;
             }
         }
 
-        bool do_run = false;
+        bool do_run;
+        bool do_step;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                }
-            }
+            _process_clearing = false;
+            _process_clear_again = false;
+            _process_suspended = false;
+            do_run = !_process_final &&
+                     (ps.first == process_state::yield || !_queue.empty() || _process_close_queue);
+            _process_running = do_run;
+            do_step = do_run && from_step && ps.first == process_state::yield &&
+                      _process_cleared && !_process_extra_step;
+            _process_cleared = false;
+            _process_extra_step = do_step;
         }
         // Somebody told me that his name was Bill
-        if (do_run) run();
+        if (do_step)
+            step<T>();
+        else if (do_run)
+            run();
     }
 
     auto pop_from_queue() {
@@ -1111,23 +1157,9 @@ struct shared_process
         */
 
         std::size_t n;
-        bool suspend_process;
         {
             std::unique_lock<std::mutex> lock(_downstream_mutex);
             n = _downstream.size();
-            suspend_process = _downstream.minimum_free_buffer() <= 1;
-        }
-
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (suspend_process) {
-                /*
-                    Suspend for however many downstream processes we have + 1 for this process -
-                   that ensures that we are not kicked to run while still broadcasting.
-                */
-                _process_suspend_count = n + 1;
-            } else
-                _process_suspend_count = 1;
         }
         /*
             There is no lock on _downstream here. We only ever append to this deque so the first
@@ -1136,8 +1168,12 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_suspended = true;
+        }
+
+        resume(true); // unless a downstream buffer is full
     }
 
     void map(sender<result_t> f) override {
-- 
2.43.0


From 04acd8dff6b5b43bf2d040d6ed646daf310e2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 13/23] fix: close a process when its input is closed, not
 whenever its queue is empty

---
 include/stlab/concurrency/channel.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 201bdb6..c2d0d20 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -941,8 +941,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
-- 
2.43.0


From 7d751407d72229500ca5c3540227ea13043fdc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 14/23] fix: a process which yields after it was closed must
 finish

It was neither run again nor finished, so that nothing downstream was closed.
---
 include/stlab/concurrency/channel.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index c2d0d20..3fe7c2e 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -833,11 +833,13 @@ struct shared_process
         assert(!(do_run && do_final) && "ERROR (sparent) : can't run and close at the same time.");
         // I met him on a Monday and my heart stood still
         if (do_run) run();
-        if (do_final) {
-            std::unique_lock<std::mutex> lock(_downstream_mutex);
-            _downstream.clear(); // This will propagate the close to anything downstream
-            _process = std::nullopt;
-        }
+        if (do_final) finish();
+    }
+
+    void finish() {
+        std::unique_lock<std::mutex> lock(_downstream_mutex);
+        _downstream.clear(); // This will propagate the close to anything downstream
+        _process = std::nullopt;
     }
 
     // Called by the downstream processes whenever they may have a free buffer.
@@ -878,14 +880,15 @@ struct shared_process
 
         bool do_run;
         bool do_step;
+        bool do_final;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
             _process_clearing = false;
             _process_clear_again = false;
             _process_suspended = false;
-            do_run = !_process_final &&
-                     (ps.first == process_state::yield || !_queue.empty() || _process_close_queue);
+            do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
+            do_final = _process_final && !do_run;
             _process_running = do_run;
             do_step = do_run && from_step && ps.first == process_state::yield &&
                       _process_cleared && !_process_extra_step;
@@ -897,6 +900,8 @@ struct shared_process
             step<T>();
         else if (do_run)
             run();
+        else if (do_final)
+            finish();
     }
 
     auto pop_from_queue() {
-- 
2.43.0


From 5236dab843d369efa1a1d1f41adec107e4c81dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 15/23] fix: a process which does not accept errors is closed
 by an error, once

A function was left running for ever, a process with await() went on and was
closed again by every following error.
---
 include/stlab/concurrency/channel.hpp | 31 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 3fe7c2e..d46a002 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -601,6 +601,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             bool do_run;
             {
                 std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
+                if (_shared_process._process_final) return; // closed by an error
                 _shared_process._process_close_queue = true;
                 do_run = !_shared_process._receiver_count && !_shared_process._process_running;
                 _shared_process._process_running = _shared_process._process_running || do_run;
@@ -614,6 +615,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         bool do_run;
         {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
+            if (_shared_process._process_final) return; // closed by an error
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
             // A value which arrives in time cancels the timeout
@@ -633,7 +635,8 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
         const std::size_t buffer_size = _shared_process._process_buffer_size;
-        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        if (buffer_size == 0 || _shared_process._process_final)
+            return std::numeric_limits<std::size_t>::max();
         return buffer_size - std::min(buffer_size, _shared_process._queue.template queue_size<I>());
     }
 };
@@ -923,6 +926,20 @@ struct shared_process
         return std::make_tuple(std::move(message), do_cts, do_close);
     }
 
+    // Closes a process which got an error it does not accept. It takes nothing any more.
+    void close_on_error() {
+        queue_strategy_t abandoned;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            std::swap(abandoned, _queue);
+            _process_close_queue = false;
+            _process_final = true;
+        }
+        tuple_for_each(_upstream, [](auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     auto dequeue() -> bool {
         using queue_t = typename Q::value_type;
         std::optional<queue_t> message;
@@ -940,10 +957,13 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
-                else
-                    do_close = true;
+                else {
+                    close_on_error();
+                    process_close(_process);
+                    return false;
+                }
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
@@ -1132,7 +1152,8 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                do_close = true;
+                close_on_error();
+                task_done();
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From 9576e6aec33e32edd1ed086706aed84758a3c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 16/23] fix: sender and receiver must not leak the count of
 what they are assigned over

Nor must the copy of a ready receiver count as one which is not ready.
---
 include/stlab/concurrency/channel.hpp | 29 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index d46a002..e4f6b7b 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1513,7 +1513,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver();
     }
 
     receiver(receiver&&) noexcept = default;
@@ -1524,14 +1524,21 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    // what was assigned over goes away with x
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        receiver(std::move(x)).swap(*this);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
         _ready = true;
     }
 
-    void swap(receiver& x) noexcept { std::swap(*this, x); }
+    void swap(receiver& x) noexcept {
+        std::swap(_p, x._p);
+        std::swap(_ready, x._ready);
+    }
 
     inline friend void swap(receiver& x, receiver& y) noexcept { x.swap(y); }
     inline friend auto operator==(const receiver& x, const receiver& y) -> bool {
@@ -1622,9 +1629,13 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    // what was assigned over goes away with x
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender(std::move(x)).swap(*this);
+        return *this;
+    }
 
-    void swap(sender& x) noexcept { std::swap(*this, x); }
+    void swap(sender& x) noexcept { std::swap(_p, x._p); }
 
     inline friend void swap(sender& x, sender& y) noexcept { x.swap(y); }
 
@@ -1680,9 +1691,13 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    // what was assigned over goes away with x
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender(std::move(x)).swap(*this);
+        return *this;
+    }
 
-    void swap(sender& x) noexcept { std::swap(*this, x); }
+    void swap(sender& x) noexcept { std::swap(_p, x._p); }
 
     inline friend void swap(sender& x, sender& y) noexcept { x.swap(y); }
 
-- 
2.43.0


From ed6721e48a86048a970527e286cbb7856f23b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 17/23] fix: annotate the process which is returned, not the
 one moved from

---
 include/stlab/concurrency/channel.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index e4f6b7b..55b11d3 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1409,7 +1409,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
@@ -1470,14 +1470,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From af71e2e89b91c1919d9fadbc0413e571d0158417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 18/23] fix: round robin and unordered merges must call await()
 of a process

---
 include/stlab/concurrency/channel.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 55b11d3..251486e 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -362,6 +362,12 @@ using process_await_t = decltype(std::declval<T&>().await(std::declval<Args>()..
 template <typename T, typename... Args>
 constexpr bool has_process_await_v = is_detected_v<process_await_t, T, Args...>;
 
+// The values of a queue with a single argument are passed to await() one by one.
+template <typename Q, typename T, typename... Args>
+constexpr bool awaits_queue_v =
+    Q::arguments_size == 1 ? has_process_await_v<unwrap_reference_t<T>, first_t<Args...>> :
+                             has_process_await_v<unwrap_reference_t<T>, Args...>;
+
 /**************************************************************************************************/
 
 template <typename P, typename... T, std::size_t... I>
@@ -964,7 +970,9 @@ struct shared_process
                     process_close(_process);
                     return false;
                 }
-            } else
+            } else if constexpr (Q::arguments_size == 1)
+                await_variant_args<process_t, first_t<Args...>>(*_process, *message);
+            else
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
 
@@ -980,7 +988,7 @@ struct shared_process
 
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    !has_process_await_v<unwrap_reference_t<T>, Args...>> {
+                                    !awaits_queue_v<Q, T, Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1033,7 +1041,7 @@ struct shared_process
 
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    has_process_await_v<unwrap_reference_t<T>, Args...>> {
+                                    awaits_queue_v<Q, T, Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
-- 
2.43.0


From 1960ce79aa778cda98ab157a55469f56a3ab2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 19/23] fix: assigning a tracked task must not leak the step of
 the one it replaces

---
 include/stlab/concurrency/progress.hpp | 31 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..60ec575 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -52,24 +52,31 @@ struct tracker_client {
     }
 
     tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
-        auto p = _p.lock();
-        if (p) p->add_task();
+        if (this != &x) {
+            _f = x._f;
+            drop();
+            _p = x._p;
+            auto p = _p.lock();
+            if (p) p->add_task();
+        }
         return *this;
     }
 
     tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) {
+        if (this != &x) {
+            _f = std::move(x._f);
+            drop();
+            _p = std::move(x._p);
+        }
+        return *this;
+    }
 
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
     }
 
-    ~tracker_client() {
-        auto p = _p.lock();
-        if (p) p->drop_task();
-    }
+    ~tracker_client() { drop(); }
 
     template <typename... Args>
     auto operator()(Args&&... args) const {
@@ -78,6 +85,12 @@ struct tracker_client {
         if (p) p->task_done();
         return r;
     }
+
+private:
+    void drop() noexcept {
+        auto p = _p.lock();
+        if (p) p->drop_task();
+    }
 };
 } // namespace detail
 
-- 
2.43.0


From 59aeb69d7de3744f9e6324010927b49fc01c9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 20/23] fix: a timeout of await_for that is too long for the
 clock must not expire at once

---
 include/stlab/concurrency/await.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 7aba406..09aabea 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -11,6 +11,7 @@
 
 #include <stlab/config.hpp>
 
+#include <algorithm>
 #include <chrono>
 #include <condition_variable>
 #include <exception>
@@ -107,7 +108,9 @@ struct blocking_get_guarded {
             std::make_exception_ptr(std::runtime_error("not an error")), immediate_executor);
     }
 
-    auto wait_for(const std::chrono::nanoseconds& timeout) -> future<T> {
+    auto wait_for(const std::chrono::nanoseconds& duration) -> future<T> {
+        // Adding a longer timeout to the current time may overflow, the wait would end at once.
+        const auto timeout = std::min(duration, std::chrono::nanoseconds::max() / 2);
         std::unique_lock<std::mutex> lock{_mutex};
         _timed_out = !invoke_waiting(
             [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });
-- 
2.43.0


From 02844ca742a61a97a22a7a3af6b1f879fc375b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:47 +0000
Subject: [PATCH 21/23] fix: a timer that is too long for the clock must not be
 due at once

---
 include/stlab/concurrency/system_timer.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/system_timer.hpp b/include/stlab/concurrency/system_timer.hpp
index 6fbd757..4ffdde2 100644
--- a/include/stlab/concurrency/system_timer.hpp
+++ b/include/stlab/concurrency/system_timer.hpp
@@ -226,6 +226,17 @@ class system_timer {
         }
     };
 
+    // Adding a longer duration to the current time may overflow, the task would be due at once.
+    template <typename Rep, typename Per>
+    static auto due(std::chrono::duration<Rep, Per> duration)
+        -> std::chrono::steady_clock::time_point {
+        using namespace std::chrono;
+        using seconds_t = std::chrono::duration<double>;
+        constexpr auto longest = nanoseconds::max() / 2;
+        if (seconds_t(duration) > seconds_t(longest)) return steady_clock::now() + longest;
+        return steady_clock::now() + duration;
+    }
+
     void timed_queue_run() {
         while (true) {
             task<void() noexcept> task;
@@ -274,7 +285,7 @@ public:
     auto operator()(std::chrono::duration<Rep, Per> duration, F&& f)
         -> std::enable_if_t<std::is_nothrow_invocable_v<F>> {
         lock_t lock(_timed_queue_mutex);
-        _timed_queue.emplace_back(std::chrono::steady_clock::now() + duration, std::forward<F>(f));
+        _timed_queue.emplace_back(due(duration), std::forward<F>(f));
         std::push_heap(std::begin(_timed_queue), std::end(_timed_queue), greater_first());
         _condition.notify_one();
     }
-- 
2.43.0


From 4ffc699beca9c52eaed4996811f801354fccdd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 22/23] fix: a suspended process which has nothing left to send
 passes its close on

With unequal inputs of a zip or round robin merge the longer input stayed
suspended in front of the full buffer of the merge although it was closed and
empty, so that the merge never closed.
---
 include/stlab/concurrency/channel.hpp | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 251486e..dd5f609 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -605,14 +605,17 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         assert(_shared_process._sender_count > 0);
         if (--_shared_process._sender_count == 0) {
             bool do_run;
+            bool do_resume;
             {
                 std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
                 if (_shared_process._process_final) return; // closed by an error
                 _shared_process._process_close_queue = true;
+                do_resume = _shared_process._process_suspended;
                 do_run = !_shared_process._receiver_count && !_shared_process._process_running;
                 _shared_process._process_running = _shared_process._process_running || do_run;
             }
             if (do_run) _shared_process.run();
+            if (do_resume) _shared_process.resume(false);
         }
     }
 
@@ -760,6 +763,8 @@ struct shared_process
     bool _process_cleared = false;
     bool _process_extra_step = false;
     bool _process_close_queue = false;
+    // The process was resumed to be closed although there is no free buffer downstream.
+    bool _process_close_suspended = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
@@ -855,7 +860,8 @@ struct shared_process
     void clear_to_send() override { resume(false); }
 
     /*
-        Resumes the process if it is suspended and there is a free buffer downstream. If this is
+        Resumes the process if it is suspended and there is a free buffer downstream, or nothing
+        left to be sent there before it is closed. If this is
         called at the end of a step (a broadcast is complete) of a process which has more values to
         yield then one more step may be made at once, as if there were no executor in between.
     */
@@ -879,8 +885,14 @@ struct shared_process
                 std::unique_lock<std::mutex> lock(_downstream_mutex);
                 free_buffer = _downstream.minimum_free_buffer() != 0;
             }
+            const bool awaits =
+                !free_buffer && get_process_state(_process).first == process_state::await;
             std::unique_lock<std::mutex> lock(_process_mutex);
             if (free_buffer) break;
+            if (awaits && _queue.empty() && (_process_close_queue || _process_final)) {
+                _process_close_suspended = _process_close_queue;
+                break;
+            }
             if (!std::exchange(_process_clear_again, false)) {
                 _process_clearing = false;
                 return;
@@ -1051,6 +1063,13 @@ struct shared_process
                 if (!dequeue()) break;
             }
 
+            // What is left after the close has to wait for a free buffer
+            if (std::exchange(_process_close_suspended, false) &&
+                get_process_state(_process).first == process_state::yield) {
+                suspend();
+                return;
+            }
+
             // Workaround until we can use structured bindings
             auto tmp = get_process_state(_process);
             const auto& state = tmp.first;
@@ -1200,12 +1219,15 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
+        suspend(); // unless no downstream buffer is full
+    }
+
+    void suspend() {
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
             _process_suspended = true;
         }
-
-        resume(true); // unless a downstream buffer is full
+        resume(true);
     }
 
     void map(sender<result_t> f) override {
-- 
2.43.0


From b639e59ad69c8fda4ab8d52601d8a0aa0849d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:54 +0000
Subject: [PATCH 23/23] fix: a suspended process with a timed wait is closed
 when it may send what it yields then

---
 include/stlab/concurrency/channel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index dd5f609..42e3ff9 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -885,8 +885,9 @@ struct shared_process
                 std::unique_lock<std::mutex> lock(_downstream_mutex);
                 free_buffer = _downstream.minimum_free_buffer() != 0;
             }
+            // A process with a timed wait is going to yield even when nothing is left to be awaited
             const bool awaits =
-                !free_buffer && get_process_state(_process).first == process_state::await;
+                !free_buffer && get_process_state(_process) == await_forever;
             std::unique_lock<std::mutex> lock(_process_mutex);
             if (free_buffer) break;
             if (awaits && _queue.empty() && (_process_close_queue || _process_final)) {
-- 
2.43.0

