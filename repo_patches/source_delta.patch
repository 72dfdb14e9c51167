From 69665a6d216742dba76c28c026f23f60b22fa1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:07 +0000
Subject: [PATCH 01/39] fix: scoped_lock move assignment releases the mutex it
 already held

---
 include/coro/mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..346c2cd 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,6 +99,7 @@ public:
     {
         if (std::addressof(other) != this)
         {
+            unlock();
             m_mutex = std::exchange(other.m_mutex, nullptr);
         }
         return *this;
-- 
2.43.0


From cda9248c2ced07730be3f212f94d77d8b13e47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:36 +0000
Subject: [PATCH 02/39] fix: ring_buffer::shutdown_drain reports stopped to
 suspended producers

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..4d69e2c 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -375,6 +375,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From 5eefdb8497c4fc334064e22b29d0d89c985e524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 03/39] fix: ring_buffer and queue shutdown() is not dropped
 when a drain starts at the same time

---
 include/coro/queue.hpp       | 6 ++----
 include/coro/ring_buffer.hpp | 5 ++---
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..b6bffd1 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -333,16 +333,14 @@ public:
      */
     auto shutdown() -> coro::task<void>
     {
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         // We use the lock to guarantee the m_running_state has propagated.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 4d69e2c..534dbda 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -320,15 +320,14 @@ public:
     auto shutdown() -> coro::task<void>
     {
         // Only wake up waiters once.
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         auto lk = co_await m_mutex.scoped_lock();
         // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From f3d37e05528cb9283d7e7075ae46f9a0fd079b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 04/39] fix: condition_variable re-enqueues a waiter that is
 not ready before it releases the lock

---
 include/coro/condition_variable.hpp |  9 ++++-----
 src/condition_variable.cpp          | 15 +++++++++------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 654bca5..8c17136 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -63,7 +63,8 @@ private:
         /// @brief The lock that the wait() was called with.
         coro::scoped_lock& m_lock;
 
-        /// @brief Each awaiter type defines its own notify behavior.
+        /// @brief Each awaiter type defines its own notify behavior. An awaiter that is not ready re-enqueues itself
+        /// before it releases the lock, it must not be touched after this reported not_ready.
         /// @return The status of if the waiter's notify result.
         virtual auto on_notify() -> coro::task<notify_status_t> = 0;
     };
@@ -536,12 +537,10 @@ private:
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                detail::awaiter_list_push(m_awaiters, waiter);
-                break;
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
+                // Awaiters that are ready or dead are not re-enqueued.
                 break;
         }
     }
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index aa641d4..35b40ea 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -74,6 +74,8 @@ auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue before unlocking, otherwise a notify after the unlock would miss this waiter.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     m_lock.m_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -119,6 +121,8 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue before unlocking, otherwise a notify after the unlock would miss this waiter.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     m_lock.m_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -190,6 +194,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue before unlocking, otherwise a notify after the unlock would miss this waiter.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -213,8 +219,7 @@ auto condition_variable::notify_one() -> coro::task<void>
                 // The predicate was ready and the awaiter is resumed.
                 co_return;
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 co_return;
             case notify_status_t::awaiter_dead:
                 // This is an awaiter_with_wait_hook that timed out, try the next awaiter.
@@ -235,12 +240,10 @@ auto condition_variable::notify_all() -> coro::task<void>
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
-                break;
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
+                // Awaiters that are ready or dead are not re-enqueued.
                 break;
         }
 
-- 
2.43.0


From 5bb75fd54666f56b1af8281818ef5c012e28c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 05/39] fix: condition_variable does not read a timed out
 awaiter after it was resumed

---
 include/coro/condition_variable.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 8c17136..58d46b6 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -158,6 +158,8 @@ private:
         coro::event m_notify_callback{};
         /// @brief Flag to notify if the awaiter has completed via no_timeout or timeout.
         std::atomic<bool> m_awaiter_completed{false};
+        /// @brief Set when the timeout completed the awaiter, the awaiter itself is then no longer alive.
+        bool m_timed_out{false};
         /// @brief The status of the wait() call, this is _ONLY_ valid if the m_awaiter_completed flag was obtained,
         /// otherwise its a dangling reference.
         std::optional<std::cv_status>& m_status;
@@ -226,7 +228,7 @@ private:
             co_await data.m_notify_callback;
 
             // If this is the condition and not a timeout resume from this task.
-            if (m_status.value() == std::cv_status::no_timeout)
+            if (!data.m_timed_out)
             {
                 // The condition coroutine is resumed from here instead of the awaiter hook task to
                 // guarantee the controller is still alive until the caller's coroutine is completed.
@@ -251,7 +253,8 @@ private:
             if (data.m_awaiter_completed.compare_exchange_strong(
                     expected, true, std::memory_order::release, std::memory_order::relaxed))
             {
-                m_status = {std::cv_status::timeout};
+                m_status         = {std::cv_status::timeout};
+                data.m_timed_out = true;
                 lock.unlock();
 
                 // This means the timeout has occurred first. Before resuming the wait_[for|until]() caller the lock
-- 
2.43.0


From ea1b230f1d7d759ca03a34b5951ef12017cbe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 06/39] fix: condition_variable timeout task does not use an
 awaiter that is already gone

---
 include/coro/condition_variable.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 58d46b6..7b9eac5 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -243,11 +243,16 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param executor The io_executor used to wait for the timeout, the awaiter might already be completed and dead
+         * when this task starts.
+         * @param wait_for The amount of time to wait for before timing out.
          * @return coro::task<void>
          */
-        auto make_timeout_task(controller_data& data) -> coro::task<void>
+        auto make_timeout_task(
+            controller_data& data, std::unique_ptr<io_executor_type>& executor, std::chrono::nanoseconds wait_for)
+            -> coro::task<void>
         {
-            co_await m_executor->schedule_after(m_wait_for);
+            co_await executor->schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
             bool expected{false};
             if (data.m_awaiter_completed.compare_exchange_strong(
@@ -286,7 +291,7 @@ private:
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
+            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data, m_executor, m_wait_for));
             co_return;
         }
 
-- 
2.43.0


From 00f28df6d02bd6f584eeaff828980844cf5ea805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:52 +0000
Subject: [PATCH 07/39] fix: condition_variable notifiers do not pop awaiters
 concurrently (ABA)

---
 include/coro/condition_variable.hpp | 18 +++++++++++++++++-
 src/condition_variable.cpp          |  4 ++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 7b9eac5..2aba039 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <mutex>
 #include <optional>
 
 #ifdef LIBCORO_FEATURE_NETWORKING
@@ -396,7 +397,7 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_all(std::unique_ptr<executor_type>& executor) -> void
     {
-        auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+        auto* waiter = pop_all_awaiters();
 
         while (waiter != nullptr)
         {
@@ -539,6 +540,21 @@ public:
 private:
     /// @brief The list of waiters.
     std::atomic<awaiter_base*> m_awaiters{nullptr};
+    /// @brief Only one notifier at a time may remove waiters, a waiter that is not ready re-enqueues itself so popping
+    /// concurrently could restore a stale m_next (ABA).
+    std::mutex m_pop_mutex{};
+
+    auto pop_awaiter() -> awaiter_base*
+    {
+        std::scoped_lock lk{m_pop_mutex};
+        return detail::awaiter_list_pop(m_awaiters);
+    }
+
+    auto pop_all_awaiters() -> awaiter_base*
+    {
+        std::scoped_lock lk{m_pop_mutex};
+        return detail::awaiter_list_pop_all(m_awaiters);
+    }
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 35b40ea..591470c 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -207,7 +207,7 @@ auto condition_variable::notify_one() -> coro::task<void>
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
     while (true)
     {
-        auto* waiter = detail::awaiter_list_pop(m_awaiters);
+        auto* waiter = pop_awaiter();
         if (waiter == nullptr)
         {
             co_return; // There is nobody to currently notify.
@@ -230,7 +230,7 @@ auto condition_variable::notify_one() -> coro::task<void>
 
 auto condition_variable::notify_all() -> coro::task<void>
 {
-    auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+    auto* waiter = pop_all_awaiters();
 
     while (waiter != nullptr)
     {
-- 
2.43.0


From a0c9b7ac0cc96328fc251b6b82bba5ed239a35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:09 +0000
Subject: [PATCH 08/39] fix: thread_pool does not lose coroutines queued while
 it shuts down

---
 include/coro/thread_pool.hpp | 11 +++++++++--
 src/thread_pool.cpp          | 33 +++++++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..2fa4492 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -57,7 +57,7 @@ public:
          * Suspending always returns to the caller (using void return of await_suspend()) and
          * stores the coroutine internally for the executing thread to resume from.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) -> void;
 
         /**
          * no-op as this is the function called first by the thread pool's executing thread.
@@ -184,6 +184,12 @@ public:
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            if (m_shutdown_requested.load(std::memory_order::acquire))
+            {
+                m_size.fetch_sub(std::size(handles), std::memory_order::release);
+                return 0;
+            }
+
             for (const auto& handle : handles)
             {
                 if (handle != nullptr) [[likely]]
@@ -278,8 +284,9 @@ private:
     auto executor(std::size_t idx) -> void;
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
+     * @return True if the coroutine was queued, false if it was refused since the thread pool is shutting down.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..eb9870b 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,15 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) -> void
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    // The thread pool might have been shutdown since schedule() was called.
+    auto& tp = m_thread_pool;
+    if (!tp.schedule_impl(awaiting_coroutine))
+    {
+        tp.m_size.fetch_sub(1, std::memory_order::release);
+        throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
+    }
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -90,7 +96,12 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
         return false;
     }
 
-    schedule_impl(handle);
+    if (!schedule_impl(handle))
+    {
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+
     return true;
 }
 
@@ -169,18 +180,24 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
+    std::scoped_lock lk{m_wait_mutex};
+    // Once shutdown has been requested the executors might have already drained the queue and stopped, since they
+    // do so while holding the lock anything queued before the request is always executed.
+    if (m_shutdown_requested.load(std::memory_order::acquire))
     {
-        std::scoped_lock lk{m_wait_mutex};
-        m_queue.emplace_back(handle);
-        m_wait_cv.notify_one();
+        return false;
     }
+
+    m_queue.emplace_back(handle);
+    m_wait_cv.notify_one();
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From 7faa4088790fa3dc94bb65169bc5b0223d192dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:09 +0000
Subject: [PATCH 09/39] fix: thread_pool::spawn_detached refused by shutdown
 leaks nothing

---
 src/thread_pool.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index eb9870b..055e942 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -73,7 +73,16 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+
+    if (!resume(wrapper_task.handle()))
+    {
+        // The task will never be run, destroying the wrapper also destroys the user's task.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From 5950766929ffaffda885482e6e1df13b2da62f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 10/39] fix: task_group resumes its awaiters only when it is
 empty and is not used after it is

---
 include/coro/task_group.hpp | 62 ++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..d98e106 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -3,12 +3,14 @@
 #include "coro/concepts/executor.hpp"
 #include "coro/concepts/range_of.hpp"
 #include "coro/detail/task_self_deleting.hpp"
-#include "coro/event.hpp"
 #include "coro/task.hpp"
 
 #include <atomic>
+#include <coroutine>
 #include <memory>
+#include <mutex>
 #include <thread>
+#include <utility>
 
 namespace coro
 {
@@ -17,6 +19,35 @@ template<concepts::executor executor_type>
 class task_group
 {
 public:
+    class awaiter
+    {
+        friend class task_group;
+        explicit awaiter(const task_group& group) noexcept : m_group(group) {}
+
+    public:
+        [[nodiscard]] auto await_ready() const noexcept -> bool { return m_group.empty(); }
+
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
+        {
+            std::scoped_lock lk{m_group.m_mutex};
+            if (m_group.empty())
+            {
+                return false;
+            }
+
+            m_awaiting_coroutine = awaiting_coroutine;
+            m_next               = std::exchange(m_group.m_awaiters, this);
+            return true;
+        }
+
+        auto await_resume() const noexcept -> void {}
+
+    private:
+        const task_group&       m_group;
+        std::coroutine_handle<> m_awaiting_coroutine{nullptr};
+        awaiter*                m_next{nullptr};
+    };
+
     /**
      * Creates a task group to run the tasks on the given executor, use start(task) to add tasks to the group.
      * @param executor The executor to run the tasks on.
@@ -86,6 +117,9 @@ public:
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
         }
+
+        // The last task might still be inside of count_down().
+        std::scoped_lock lk{m_mutex};
     }
 
     /**
@@ -96,8 +130,6 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        // Make sure the event isn't triggered, or can trigger again.
-        m_on_empty_event.reset();
         m_size.fetch_add(1, std::memory_order::release);
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
@@ -127,20 +159,34 @@ public:
      * for the task count to drop to zero and then increase again. It is advisable to not
      * await this method on the task group until you know all tasks in the group have started.
      */
-    auto operator co_await() const noexcept -> event::awaiter { return m_on_empty_event.operator co_await(); }
+    auto operator co_await() const noexcept -> awaiter { return awaiter{*this}; }
 
 private:
     executor_type* m_executor{nullptr};
     /// The number of alive tasks.
     std::atomic<uint64_t> m_size{};
-    /// Event to trigger if m_size goes to zero.
-    coro::event m_on_empty_event{true};
+    /// Makes dropping to zero tasks and taking/adding the awaiters a single step.
+    mutable std::mutex m_mutex{};
+    /// The awaiters to resume when m_size goes to zero.
+    mutable awaiter* m_awaiters{nullptr};
 
     auto count_down() -> void
     {
-        if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+        awaiter* awaiters{nullptr};
+        {
+            std::scoped_lock lk{m_mutex};
+            if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+            {
+                awaiters = std::exchange(m_awaiters, nullptr);
+            }
+        }
+
+        // The task group cannot be used from here on, it might get destroyed as soon as it is empty.
+        while (awaiters != nullptr)
         {
-            m_on_empty_event.set();
+            auto* next = awaiters->m_next;
+            awaiters->m_awaiting_coroutine.resume();
+            awaiters = next;
         }
     }
 };
-- 
2.43.0


From fc56f80551b136e4a4490000e20ad159da95d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 11/39] fix: task_group does not leak a task that its executor
 refuses

---
 include/coro/task_group.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index d98e106..772a6d0 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -137,6 +137,8 @@ public:
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // The task will never be run, destroying the wrapper also destroys the user's task.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
-- 
2.43.0


From 79e6941469847ad436083f7aa955161ef2c16376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 12/39] fix: when_any rethrows an exception when every
 awaitable throws instead of hanging

---
 include/coro/when_any.hpp | 98 +++++++++++++++++++++++++++++++++------
 1 file changed, 85 insertions(+), 13 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index ba73d79..490fe88 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -14,6 +14,7 @@
     #include <atomic>
     #include <cassert>
     #include <coroutine>
+    #include <exception>
     #include <optional>
     #include <stop_token>
     #include <utility>
@@ -37,6 +38,23 @@ struct when_any_variant_traits<void>
     using type = std::monostate;
 };
 
+/**
+ * @return The exception of the given completed task, or nullptr if it completed without one.
+ */
+template<typename when_all_task_type>
+auto when_any_task_exception(when_all_task_type& task) noexcept -> std::exception_ptr
+{
+    try
+    {
+        (void)task.return_value();
+        return nullptr;
+    }
+    catch (...)
+    {
+        return std::current_exception();
+    }
+}
+
 template<size_t index, typename return_type, concepts::awaitable awaitable>
 auto make_when_any_tuple_task(
     std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value, awaitable a)
@@ -71,11 +89,19 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
     std::index_sequence<indices...>,
     coro::event&                notify,
     std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
     awaitable_type... awaitables) -> coro::detail::task_self_deleting
 {
     std::atomic<bool> first_completed{false};
-    co_await coro::when_all(
+    auto              results = co_await coro::when_all(
         make_when_any_tuple_task<indices>(first_completed, notify, return_value, std::move(awaitables))...);
+
+    // If every awaitable threw there is no first result, wake up the caller with the exception of the first awaitable.
+    if (first_completed.exchange(true, std::memory_order::acq_rel) == false)
+    {
+        exception = when_any_task_exception(std::get<0>(results));
+        notify.set();
+    }
     co_return;
 }
 
@@ -111,8 +137,8 @@ static auto make_when_any_task(
 }
 
 template<std::ranges::range range_type, concepts::awaitable awaitable_type = std::ranges::range_value_t<range_type>>
-static auto make_when_any_controller_task_return_void(range_type awaitables, coro::event& notify)
-    -> coro::detail::task_self_deleting
+static auto make_when_any_controller_task_return_void(
+    range_type awaitables, coro::event& notify, std::exception_ptr& exception) -> coro::detail::task_self_deleting
 {
     std::atomic<bool>             first_completed{false};
     std::vector<coro::task<void>> tasks{};
@@ -127,7 +153,14 @@ static auto make_when_any_controller_task_return_void(range_type awaitables, cor
         tasks.emplace_back(make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify));
     }
 
-    co_await coro::when_all(std::move(tasks));
+    auto results = co_await coro::when_all(std::move(tasks));
+
+    // If every awaitable threw there is no first result, wake up the caller with the exception of the first awaitable.
+    if (!std::empty(results) && first_completed.exchange(true, std::memory_order::acq_rel) == false)
+    {
+        exception = when_any_task_exception(results.front());
+        notify.set();
+    }
     co_return;
 }
 
@@ -137,8 +170,10 @@ template<
     typename return_type               = typename concepts::awaitable_traits<awaitable_type>::awaiter_return_type,
     typename return_type_base          = std::remove_reference_t<return_type>>
 static auto make_when_any_controller_task(
-    range_type awaitables, coro::event& notify, std::optional<return_type_base>& return_value)
-    -> coro::detail::task_self_deleting
+    range_type                       awaitables,
+    coro::event&                     notify,
+    std::optional<return_type_base>& return_value,
+    std::exception_ptr&              exception) -> coro::detail::task_self_deleting
 {
     // This must live for as long as the longest running when_any task since each task tries to see
     // if it was the first to complete. Only the very first task to complete will set the return_value
@@ -159,7 +194,14 @@ static auto make_when_any_controller_task(
             make_when_any_task<awaitable_type, return_type_base>(std::move(a), first_completed, notify, return_value));
     }
 
-    co_await coro::when_all(std::move(tasks));
+    auto results = co_await coro::when_all(std::move(tasks));
+
+    // If every awaitable threw there is no first result, wake up the caller with the exception of the first awaitable.
+    if (!std::empty(results) && first_completed.exchange(true, std::memory_order::acq_rel) == false)
+    {
+        exception = when_any_task_exception(results.front());
+        notify.set();
+    }
     co_return;
 }
 
@@ -175,16 +217,22 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
     stop_source.request_stop();
+    if (exception != nullptr)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -198,15 +246,21 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
+    if (exception != nullptr)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -217,16 +271,21 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(std::stop_source stop_source, range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -235,11 +294,15 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
@@ -251,15 +314,20 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -267,10 +335,14 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
-- 
2.43.0


From a8c0b8dc022fb93010098071da4ba9804d4e1b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 13/39] fix: invoke does not resume its invoker task while the
 user's task is suspended

---
 include/coro/invoke.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/coro/invoke.hpp b/include/coro/invoke.hpp
index 1111888..25a32b6 100644
--- a/include/coro/invoke.hpp
+++ b/include/coro/invoke.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <coroutine>
 #include <utility>
 
 namespace coro
@@ -12,6 +13,10 @@ template<typename functor_type, typename... args_types>
 auto make_invoker_task(functor_type functor, args_types&&... args) -> decltype(functor(std::forward<args_types>(args)...))
 {
     auto user_task = functor(std::forward<args_types>(args)...);
+    // invoke() resumes up to this point so the arguments are captured, the user's task must only run once the invoker
+    // task is awaited. If the user's task is started here and suspends then awaiting the invoker task would resume it
+    // while it is still waiting on the user's task.
+    co_await std::suspend_always{};
     co_return co_await user_task;
 }
 
-- 
2.43.0


From e788ee04946d932efc0d98dc2226b7f60293db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 14/39] fix: ip_address::from_string does not read past the end
 of the string_view

---
 include/coro/net/ip_address.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/ip_address.hpp b/include/coro/net/ip_address.hpp
index c8b6866..6f4a5d2 100644
--- a/include/coro/net/ip_address.hpp
+++ b/include/coro/net/ip_address.hpp
@@ -7,6 +7,7 @@
 #include <span>
 #include <stdexcept>
 #include <string>
+#include <string_view>
 
 namespace coro::net
 {
@@ -62,7 +63,8 @@ public:
         ip_address addr{};
         addr.m_domain = domain;
 
-        auto success = inet_pton(static_cast<int>(addr.m_domain), address.data(), addr.m_data.data());
+        // inet_pton() needs a null terminated string, which a string_view is not.
+        auto success = inet_pton(static_cast<int>(addr.m_domain), std::string{address}.c_str(), addr.m_data.data());
         if (success != 1)
         {
             throw std::runtime_error{"coro::net::ip_address faild to convert from string"};
-- 
2.43.0


From 706b91ab622dd8c17e48d872e142e245f73b0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 15/39] fix: to_string names poll_status::cancelled

---
 src/poll.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poll.cpp b/src/poll.cpp
index c53b787..ebef09e 100644
--- a/src/poll.cpp
+++ b/src/poll.cpp
@@ -29,6 +29,7 @@ static const std::string poll_status_write{"write"};
 static const std::string poll_status_timeout{"timeout"};
 static const std::string poll_status_error{"error"};
 static const std::string poll_status_closed{"closed"};
+static const std::string poll_status_cancelled{"cancelled"};
 
 auto to_string(poll_status status) -> const std::string&
 {
@@ -44,6 +45,8 @@ auto to_string(poll_status status) -> const std::string&
             return poll_status_error;
         case poll_status::closed:
             return poll_status_closed;
+        case poll_status::cancelled:
+            return poll_status_cancelled;
         default:
             return poll_unknown;
     }
-- 
2.43.0


From 4d2007dcc82bf624434ce941cdc4ef56f0ea7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 16/39] fix: moved or assigned pipe_t neither closes descriptor
 0 nor leaks its descriptors

---
 include/coro/detail/pipe.hpp | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From a6404612ae18fe546b960276d023b08968d36741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 17/39] fix: socket assignment does not leak its descriptor and
 survives self assignment

---
 src/net/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..cedcf6d 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -19,8 +19,12 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
+
     return *this;
 }
 
@@ -28,6 +32,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        this->close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From b9cba5b98551b18c9795ffdb091e5b57c7fc39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 18/39] fix: io_notifier_epoll unwatches the cancel trigger of
 every finished poll and reads no poll_info it does not have

---
 src/detail/io_notifier_epoll.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..4505cb9 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -118,6 +118,11 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
+    if (pi.m_cancel_trigger.has_value())
+    {
+        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);
+    }
+
     return unwatch(pi.m_fd, pi.m_op);
 }
 
@@ -137,26 +142,19 @@ auto io_notifier_epoll::next_events(
     int  num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout.count());
     for (int i = 0; i < num_ready; ++i)
     {
-        auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
-        auto* pi                                       = static_cast<poll_info*>(udata);
+        [[maybe_unused]] auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
+        auto* pi                                                        = static_cast<poll_info*>(udata);
 
-        // If the event issuing fd is the same as the fd of the cancellation trigger of the registered poll_info we
-        // this operation was cancelled by the user.
+        // The user data is not necessarily a poll_info, the scheduler also registers its own descriptors with pointers
+        // to something else. It's up to the scheduler to unwatch() the poll_info when it processes the event.
         if (is_cancel_event)
         {
+            // The event issuing fd is the cancellation trigger of the poll_info, the user cancelled this operation.
             ready_events.emplace_back(pi, poll_status::cancelled);
-            if (!keep_registered)
-            {
-                unwatch(*pi);
-            }
         }
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
-            {
-                unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
-            }
         }
     }
 }
-- 
2.43.0


From d8a725be9097b319db32fe008fa64ac0ea30ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 19/39] fix: timer_handle closes its timerfd

---
 include/coro/detail/timer_handle.hpp |  7 +++++++
 src/detail/timer_handle.cpp          | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..9b7a06d 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -17,6 +17,13 @@ class timer_handle
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
 
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
+
+    ~timer_handle();
+
     coro::fd_t get_fd() const { return m_fd; }
 
     const void* get_inner() const { return m_timer_handle_ptr; }
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..af9eaae 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -16,6 +16,8 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+timer_handle::~timer_handle() = default;
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
@@ -25,6 +27,15 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
 }
 
+timer_handle::~timer_handle()
+{
+    if (m_fd != -1)
+    {
+        ::close(m_fd);
+        m_fd = -1;
+    }
+}
+
 #endif
 
 } // namespace coro::detail
-- 
2.43.0


From 9b5c5cdcab8ef081e0e36a780ba406b0088859c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 20/39] fix: scheduler yield_until and schedule_at do not
 resume before the requested time

---
 src/scheduler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..d1ccba1 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -114,10 +114,9 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     {
         m_size.fetch_add(1, std::memory_order::release);
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
+        // Keep the full resolution of the requested time, rounding it down resumes the coroutine too early.
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From ae31c92f3e08b39abcb64615ee02195dc4f74fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 21/39] fix: scheduler does not lose a timer that is added
 while expired timers are processed

---
 src/scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index d1ccba1..329bdc6 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -462,7 +462,9 @@ auto scheduler::process_timeout_execute() -> void
     }
 
     // Update the time to the next smallest time point, re-take the current now time
-    // since updating and resuming tasks could shift the time.
+    // since updating and resuming tasks could shift the time.  This must be done while holding
+    // the lock, otherwise a timer that is added concurrently could be overlooked or overwritten.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From 0e50d92c333630176c3c47923dbd257ad75ffd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 22/39] fix: scheduler poll that triggers while it is being
 registered leaves no stale registration behind

---
 src/scheduler.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 329bdc6..c63ecc8 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -390,6 +390,13 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
         // is ever processed, the other is discarded.
         pi->m_processed = true;
 
+        // The coroutine could still be registering its events on another thread, wait until it is suspended since
+        // everything it registers must be removed.
+        while (pi->m_awaiting_coroutine == nullptr)
+        {
+            std::atomic_thread_fence(std::memory_order::acquire);
+        }
+
         // Given a valid fd always remove it from epoll so the next poll can blindly EPOLL_CTL_ADD.
         if (pi->m_fd != -1)
         {
@@ -403,12 +410,6 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
         }
 
         pi->m_poll_status = status;
-
-        while (pi->m_awaiting_coroutine == nullptr)
-        {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
-
         m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
     }
 }
@@ -445,15 +446,17 @@ auto scheduler::process_timeout_execute() -> void
             // is ever processed, the other is discarded.
             pi->m_processed = true;
 
-            // Since this timed out, remove its corresponding event if it has one.
-            if (pi->m_fd != -1)
+            // The coroutine could still be registering its events on another thread, wait until it is suspended
+            // since everything it registers must be removed.
+            while (pi->m_awaiting_coroutine == nullptr)
             {
-                m_io_notifier.unwatch(*pi);
+                std::atomic_thread_fence(std::memory_order::acquire);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
+            // Since this timed out, remove its corresponding event if it has one.
+            if (pi->m_fd != -1)
             {
-                std::atomic_thread_fence(std::memory_order::acquire);
+                m_io_notifier.unwatch(*pi);
             }
 
             m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
-- 
2.43.0


From 35813319100033f424967e5322b8c20358ff3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 23/39] fix: scheduler poll reports an error for a descriptor
 that cannot be watched instead of hanging

---
 src/detail/io_notifier_epoll.cpp |  5 ++++-
 src/scheduler.cpp                | 12 ++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4505cb9..b53b9ed 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -101,7 +101,10 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
+    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    {
+        return false;
+    }
 
     if (pi.m_cancel_trigger.has_value())
     {
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index c63ecc8..d5ad450 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -140,14 +140,18 @@ auto scheduler::poll(
 
     auto pi = detail::poll_info{fd, op, cancel_trigger};
 
-    if (timeout_requested)
+    if (!m_io_notifier.watch(pi))
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        std::cerr << "Failed to add " << fd << " to watch list\n";
+
+        // No event can ever trigger for this file descriptor, do not wait for it.
+        m_size.fetch_sub(1, std::memory_order::release);
+        co_return poll_status::error;
     }
 
-    if (!m_io_notifier.watch(pi))
+    if (timeout_requested)
     {
-        std::cerr << "Failed to add " << fd << " to watch list\n";
+        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
-- 
2.43.0


From 50d5227078977a647933b791342edd7189ae69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 24/39] fix: scheduler::spawn_detached refused by shutdown
 leaks nothing

---
 src/scheduler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index d5ad450..3fd47fc 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -87,7 +87,16 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+
+    if (!resume(wrapper_task.handle()))
+    {
+        // The task will never be run, destroying the wrapper also destroys the user's task.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
-- 
2.43.0


From dc807f63d70a0717a64a5b5da6da670322efefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 25/39] fix: scheduler schedule operation is not used after the
 event loop has taken it

---
 include/coro/scheduler.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..ff533de 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -146,19 +146,22 @@ public:
          */
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
+            // This operation is gone once the event loop has taken it, do not use any members after it has been pushed.
+            auto& scheduler = m_scheduler;
+
+            if (scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                scheduler.m_size.fetch_add(1, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+                detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = scheduler.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
@@ -169,7 +172,7 @@ public:
             }
             else
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                scheduler.m_thread_pool->resume(awaiting_coroutine);
             }
         }
 
-- 
2.43.0


From 45062e7a3e78a52080c34b8ed4ae182a42be33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 26/39] fix: scheduler schedule with a timeout below a
 millisecond is not treated as no timeout

---
 include/coro/scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index ff533de..cd308cf 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -249,7 +249,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -301,7 +301,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
-- 
2.43.0


From 2cedd1431fd095d8f9a2b8c6c05f9007c1e5d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 27/39] fix: work offered to a scheduler whose event loop
 thread has stopped is refused instead of lost

---
 include/coro/scheduler.hpp | 56 +++++++++++++++++++++++++++-----------
 src/scheduler.cpp          | 21 ++++++++++++--
 2 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index cd308cf..5b5e959 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -19,6 +19,7 @@
 #include <map>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <stop_token>
 #include <thread>
 #include <type_traits>
@@ -143,15 +144,48 @@ public:
         /**
          * Suspending always returns to the caller (using void return of await_suspend()) and
          * stores the coroutine internally for the executing thread to resume from.
+         * @throw std::runtime_error If the scheduler is `shutdown()` and can no longer execute tasks.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) -> void
+        {
+            if (!enqueue(awaiting_coroutine))
+            {
+                throw std::runtime_error("coro::scheduler is shutdown, unable to schedule new tasks.");
+            }
+        }
+
+        /**
+         * no-op as this is the function called first by the thread pool's executing thread.
+         */
+        auto await_resume() noexcept -> void {}
+
+        std::coroutine_handle<> m_awaiting_coroutine;
+        schedule_operation*     m_next{nullptr};
+        bool                    m_allocated{false};
+
+    private:
+        /// The thread pool that this operation will execute on.
+        scheduler& m_scheduler;
+
+        /**
+         * @return True if the coroutine will be resumed by the scheduler, false if the scheduler is shutdown and there
+         *         is nothing left that could resume it.
+         */
+        auto enqueue(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             // This operation is gone once the event loop has taken it, do not use any members after it has been pushed.
             auto& scheduler = m_scheduler;
 
             if (scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                scheduler.m_size.fetch_add(1, std::memory_order::release);
+                // The dedicated event loop thread only stops if it sees no tasks after it announced that it will.
+                scheduler.m_size.fetch_add(1, std::memory_order::seq_cst);
+                if (scheduler.m_io_thread_stopped.load(std::memory_order::seq_cst))
+                {
+                    scheduler.m_size.fetch_sub(1, std::memory_order::release);
+                    return false;
+                }
+
                 m_awaiting_coroutine = awaiting_coroutine;
                 detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
@@ -169,25 +203,13 @@ public:
                             << written << "\n";
                     }
                 }
+                return true;
             }
             else
             {
-                scheduler.m_thread_pool->resume(awaiting_coroutine);
+                return scheduler.m_thread_pool->resume(awaiting_coroutine);
             }
         }
-
-        /**
-         * no-op as this is the function called first by the thread pool's executing thread.
-         */
-        auto await_resume() noexcept -> void {}
-
-        std::coroutine_handle<> m_awaiting_coroutine;
-        schedule_operation*     m_next{nullptr};
-        bool                    m_allocated{false};
-
-    private:
-        /// The thread pool that this operation will execute on.
-        scheduler& m_scheduler;
     };
 
     /**
@@ -492,6 +514,8 @@ private:
 
     /// Has the scheduler been requested to shut down?
     std::atomic<bool> m_shutdown_requested{false};
+    /// Has the dedicated event loop thread stopped (or is about to) and thus can not resume anything anymore?
+    std::atomic<bool> m_io_thread_stopped{false};
 
     auto yield_for_internal(std::chrono::nanoseconds amount) -> coro::task<void>;
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 3fd47fc..25c5c04 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -186,7 +186,11 @@ auto scheduler::resume(std::coroutine_handle<> handle) -> bool
     {
         auto* schedule_op        = new schedule_operation{*this};
         schedule_op->m_allocated = true;
-        schedule_op->await_suspend(handle);
+        if (!schedule_op->enqueue(handle))
+        {
+            delete schedule_op;
+            return false;
+        }
         return true;
     }
     else
@@ -264,9 +268,20 @@ auto scheduler::process_events_dedicated_thread() -> void
 
     m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
-    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+    while (true)
     {
-        process_events_execute(m_default_timeout);
+        while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+        {
+            process_events_execute(m_default_timeout);
+        }
+
+        // From here on tasks are refused, everything that was accepted before must still be executed.
+        m_io_thread_stopped.store(true, std::memory_order::seq_cst);
+        if (m_size.load(std::memory_order::seq_cst) == 0)
+        {
+            break;
+        }
+        m_io_thread_stopped.store(false, std::memory_order::seq_cst);
     }
     m_io_processing.exchange(false, std::memory_order::release);
 
-- 
2.43.0


From 2e1a13c0a332816943ea6b7d82b665b5b7acb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 28/39] fix: tcp client read spans count elements, not bytes

---
 include/coro/net/tcp/client.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 642a66c..c588988 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -80,7 +80,10 @@ public:
             co_return {io_status{io_status::kind::ok}, {}};
         }
         auto [status, buf] = co_await read_some_impl(std::as_writable_bytes(std::span{buffer}), timeout);
-        co_return {status, std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size()}};
+        // The span counts elements and not bytes.
+        co_return {
+            status,
+            std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size() / sizeof(element_type)}};
     }
 
     /**
@@ -118,7 +121,10 @@ public:
             co_return {io_status{io_status::kind::ok}, {}};
         }
         auto [status, buf] = co_await read_exact_impl(std::as_writable_bytes(std::span{buffer}), timeout);
-        co_return {status, std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size()}};
+        // The span counts elements and not bytes.
+        co_return {
+            status,
+            std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size() / sizeof(element_type)}};
     }
 
     /**
-- 
2.43.0


From fde876cc7e5f1bc21607e112cf8ee84a7e58fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:58 +0000
Subject: [PATCH 29/39] fix: tcp client connect reports an error when the
 outcome of the connection cannot be determined

---
 src/net/tcp/client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/tcp/client.cpp b/src/net/tcp/client.cpp
index b0e0cef..94363de 100644
--- a/src/net/tcp/client.cpp
+++ b/src/net/tcp/client.cpp
@@ -111,6 +111,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connect_st
                 if (getsockopt(m_socket.native_handle(), SOL_SOCKET, SO_ERROR, &result, &result_length) < 0)
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
+                    co_return return_value(connect_status::error);
                 }
 
                 if (result == 0)
-- 
2.43.0


From 60a2f58689ed48512857f64aa5c3bdff3ae7f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 30/39] fix: tls client recv and send call openssl again after
 the event it waits for in the other direction

---
 include/coro/net/tls/client.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..9ee232f 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -108,9 +108,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    // Whichever event openssl asked for has triggered, let it continue.
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -204,9 +204,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::write:
-                    break;
                 case poll_status::read:
-                    continue;
+                    // Whichever event openssl asked for has triggered, let it continue.
+                    break;
                 case poll_status::timeout:
                     co_return {send_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
-- 
2.43.0


From 61cbbdf574ef9c419b05a5a15dc9e8d25c2dc01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 31/39] fix: tls client recv returns data openssl has already
 decrypted without waiting for more

---
 include/coro/net/tls/client.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 9ee232f..a072a89 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -104,7 +104,12 @@ public:
                 start = std::chrono::steady_clock::now();
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            // Openssl might have already decrypted data that the socket will not trigger a read event for.
+            auto pstatus = poll_status::read;
+            if (op != poll_op::read || SSL_pending(tls) == 0)
+            {
+                pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            }
             switch (pstatus)
             {
                 case poll_status::read:
-- 
2.43.0


From 3b558a5969347ed92b1737ff8abb2acebbd81340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 32/39] fix: tls client handshake is not failed by the errors
 of other connections

---
 src/net/tls/client.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..35d7627 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -161,10 +161,16 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
         SSL_set_accept_state(tls);
     }
 
-    int r{0};
-    ERR_clear_error();
-    while ((r = SSL_connect(tls)) != 1)
+    while (true)
     {
+        // Other connections on this thread can leave errors in the queue while this one is suspended.
+        ERR_clear_error();
+        int r = SSL_connect(tls);
+        if (r == 1)
+        {
+            break;
+        }
+
         poll_op op{poll_op::read_write};
         int     err = SSL_get_error(tls, r);
         if (err == SSL_ERROR_WANT_WRITE)
-- 
2.43.0


From d96fcf53306ffb3dd615f4db386eeb7da667cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 33/39] fix: tls client connect reports an error when the
 outcome of the connection cannot be determined

---
 src/net/tls/client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 35d7627..8353801 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -119,6 +119,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
                 if (getsockopt(m_socket.native_handle(), SOL_SOCKET, SO_ERROR, &result, &result_length) < 0)
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
+                    co_return return_value(connection_status::error);
                 }
 
                 if (result == 0)
-- 
2.43.0


From cb6fb23ecfcafdc76969f7aa3e6d12479996e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 34/39] fix: tls server accept keeps the outcome of the
 handshake

---
 src/net/tls/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 171b788..9e3f4c1 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -59,7 +59,8 @@ auto server::accept(std::chrono::milliseconds timeout) -> coro::task<coro::net::
     auto tls_client = tls::client{m_scheduler, m_tls_ctx, std::move(s), client_endpoint};
 
     auto hstatus = co_await tls_client.handshake(timeout);
-    (void)hstatus; // user must check result.
+    // The user checks the result through client.connect().
+    tls_client.m_connect_status = hstatus;
     co_return std::move(tls_client);
 };
 
-- 
2.43.0


From 9b8c226983925dc1ddace07d2c80d6754759d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 35/39] fix: tls client send returns the unsent bytes when it
 fails

---
 include/coro/net/tls/client.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index a072a89..1ffb803 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -197,7 +197,7 @@ public:
                     t -= duration;
                     if (t <= std::chrono::microseconds{0})
                     {
-                        co_return {send_status::timeout, std::span<element_type>{}};
+                        co_return {send_status::timeout, std::span<element_type>{buffer.data(), buffer.size()}};
                     }
                 }
 
@@ -213,13 +213,13 @@ public:
                     // Whichever event openssl asked for has triggered, let it continue.
                     break;
                 case poll_status::timeout:
-                    co_return {send_status::timeout, std::span<element_type>{}};
+                    co_return {send_status::timeout, std::span<element_type>{buffer.data(), buffer.size()}};
                 case poll_status::error:
-                    co_return {send_status::error, std::span<element_type>{}};
+                    co_return {send_status::error, std::span<element_type>{buffer.data(), buffer.size()}};
                 case poll_status::closed:
-                    co_return {send_status::closed, std::span<element_type>{}};
+                    co_return {send_status::closed, std::span<element_type>{buffer.data(), buffer.size()}};
                 case poll_status::cancelled:
-                    co_return {send_status::cancelled, std::span<element_type>{}};
+                    co_return {send_status::cancelled, std::span<element_type>{buffer.data(), buffer.size()}};
             }
 
             size_t bytes_sent{0};
@@ -245,7 +245,8 @@ public:
                 }
                 else
                 {
-                    co_return {static_cast<send_status>(err), std::span<element_type>{}};
+                    co_return {
+                        static_cast<send_status>(err), std::span<element_type>{buffer.data(), buffer.size()}};
                 }
             }
             else
-- 
2.43.0


From 324a4305f60488429b099c255fdffafa40ee92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:50 +0000
Subject: [PATCH 36/39] fix: tls client timeouts bound the whole connect, recv
 and send

---
 include/coro/net/tls/client.hpp | 74 +++++++++++++--------------------
 src/net/tls/client.cpp          | 21 ++++++++--
 2 files changed, 47 insertions(+), 48 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 1ffb803..2dab3ee 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -81,34 +81,21 @@ public:
 
         auto op = poll_op::read;
 
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        const auto start = std::chrono::steady_clock::now();
 
         while (true)
         {
-            if (timeout.has_value())
+            auto remaining = remaining_timeout(timeout.value_or(std::chrono::milliseconds{0}), start);
+            if (!remaining.has_value())
             {
-                auto& t = timeout.value();
-                if (!first)
-                {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {recv_status::timeout, std::span<element_type>{}};
-                    }
-                }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
+                co_return {recv_status::timeout, std::span<element_type>{}};
             }
 
             // Openssl might have already decrypted data that the socket will not trigger a read event for.
             auto pstatus = poll_status::read;
             if (op != poll_op::read || SSL_pending(tls) == 0)
             {
-                pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+                pstatus = co_await poll(op, remaining.value());
             }
             switch (pstatus)
             {
@@ -129,10 +116,6 @@ public:
             size_t bytes_recv{0};
             ERR_clear_error();
             int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
             if (r <= 0)
             {
                 int err = SSL_get_error(tls, r);
@@ -182,30 +165,17 @@ public:
 
         auto op = poll_op::write;
 
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        const auto start = std::chrono::steady_clock::now();
 
         while (true)
         {
-            if (timeout.has_value())
+            auto remaining = remaining_timeout(timeout.value_or(std::chrono::milliseconds{0}), start);
+            if (!remaining.has_value())
             {
-                auto& t = timeout.value();
-                if (!first)
-                {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {send_status::timeout, std::span<element_type>{buffer.data(), buffer.size()}};
-                    }
-                }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
+                co_return {send_status::timeout, std::span<element_type>{buffer.data(), buffer.size()}};
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            auto pstatus = co_await poll(op, remaining.value());
             switch (pstatus)
             {
                 case poll_status::write:
@@ -225,10 +195,6 @@ public:
             size_t bytes_sent{0};
             ERR_clear_error();
             int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
             if (r <= 0)
             {
                 int err = SSL_get_error(tls, r);
@@ -308,6 +274,26 @@ private:
         return m_scheduler->poll(m_socket, op, timeout);
     }
 
+    /**
+     * @param timeout The timeout of the whole operation, zero is indefinite.
+     * @param start When the operation started.
+     * @return How long the operation can still wait for, zero is indefinite, or nothing if it has timed out.
+     */
+    static auto remaining_timeout(std::chrono::milliseconds timeout, std::chrono::steady_clock::time_point start)
+        -> std::optional<std::chrono::milliseconds>
+    {
+        if (timeout.count() > 0)
+        {
+            timeout -=
+                std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - start);
+            if (timeout.count() <= 0)
+            {
+                return std::nullopt;
+            }
+        }
+        return timeout;
+    }
+
     struct tls_deleter
     {
         auto operator()(SSL* ssl) const -> void { SSL_free(ssl); }
diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 8353801..baf2a67 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -98,6 +98,8 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
         return s;
     };
 
+    const auto start = std::chrono::steady_clock::now();
+
     auto [addr, len] = m_endpoint.data();
 
     auto cret = ::connect(m_socket.native_handle(), addr, len);
@@ -124,8 +126,12 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
 
                 if (result == 0)
                 {
-                    // TODO: delta the already used time and remove from the handshake timeout.
-                    co_return return_value(co_await handshake(timeout));
+                    auto remaining = remaining_timeout(timeout, start);
+                    if (!remaining.has_value())
+                    {
+                        co_return return_value(connection_status::timeout);
+                    }
+                    co_return return_value(co_await handshake(remaining.value()));
                 }
             }
             else if (pstatus == poll_status::timeout)
@@ -140,6 +146,8 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
 
 auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connection_status>
 {
+    const auto start = std::chrono::steady_clock::now();
+
     m_tls_info.m_tls_ptr = tls_unique_ptr{SSL_new(m_tls_ctx->native_handle())};
     if (m_tls_info.m_tls_ptr == nullptr)
     {
@@ -190,8 +198,13 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
             co_return connection_status::handshake_failed;
         }
 
-        // TODO: adjust timeout based on elapsed time so far.
-        auto pstatus = co_await m_scheduler->poll(m_socket, op, timeout);
+        auto remaining = remaining_timeout(timeout, start);
+        if (!remaining.has_value())
+        {
+            co_return connection_status::timeout;
+        }
+
+        auto pstatus = co_await m_scheduler->poll(m_socket, op, remaining.value());
         switch (pstatus)
         {
             case poll_status::timeout:
-- 
2.43.0


From 2628f263abb397024b657d30d66aedf4e0793e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:00 +0000
Subject: [PATCH 37/39] fix: dns resolver lets c-ares handle failed sockets,
 lookups do not hang

---
 include/coro/net/dns/resolver.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index f9e9570..1c73037 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -192,12 +192,9 @@ private:
                     ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
                 case poll_status::error:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
+                    // Let c-ares discover what happened to the socket, it'll close it and fail or retry its queries.
+                    ares_process_fd(m_ares_channel, fd, fd);
                     break;
                 case poll_status::cancelled:
                     m_active_sockets.erase(fd);
-- 
2.43.0


From bb0eacab9786c9d0a83cdb883dfd2351c210feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 38/39] fix: dns resolver releases c-ares when its channel
 cannot be created

---
 include/coro/net/dns/resolver.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 1c73037..2dac28e 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -107,6 +107,7 @@ public:
         auto channel_init_status = ares_init_options(&m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
+            release_library();
             throw std::runtime_error{ares_strerror(channel_init_status)};
         }
     }
@@ -124,14 +125,7 @@ public:
             m_ares_channel = nullptr;
         }
 
-        {
-            std::scoped_lock g{detail::m_ares_mutex};
-            --detail::m_ares_count;
-            if (detail::m_ares_count == 0)
-            {
-                ares_library_cleanup();
-            }
-        }
+        release_library();
     }
 
     /**
@@ -159,6 +153,16 @@ public:
     }
 
 private:
+    static auto release_library() -> void
+    {
+        std::scoped_lock g{detail::m_ares_mutex};
+        --detail::m_ares_count;
+        if (detail::m_ares_count == 0)
+        {
+            ares_library_cleanup();
+        }
+    }
+
     /// The executor to drive the events for dns lookups.
     std::unique_ptr<executor_type>& m_executor;
 
-- 
2.43.0


From c6b4fedcf262d4f4124ee2b742ebe6b26c92a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 39/39] fix: dns resolver's poll tasks do not use it or its
 channel once it is destroyed

---
 include/coro/net/dns/resolver.hpp | 100 ++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 27 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 2dac28e..b28183a 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -121,6 +121,8 @@ public:
     {
         if (m_ares_channel != nullptr)
         {
+            // This marks every active socket as closed, their poll tasks do not use the channel anymore.
+            std::scoped_lock g{*m_channel_mutex};
             ares_destroy(m_ares_channel);
             m_ares_channel = nullptr;
         }
@@ -139,13 +141,16 @@ public:
         ares_addrinfo_hints hints{};
         hints.ai_family = AF_UNSPEC; // Request both IPv4 and IPv6
 
-        ares_getaddrinfo(
-            m_ares_channel,
-            hn.data().data(),
-            nullptr, // service name (port number or NULL)
-            &hints,
-            ares_dns_callback,
-            result_ptr.get());
+        {
+            std::scoped_lock g{*m_channel_mutex};
+            ares_getaddrinfo(
+                m_ares_channel,
+                hn.data().data(),
+                nullptr, // service name (port number or NULL)
+                &hints,
+                ares_dns_callback,
+                result_ptr.get());
+        }
 
         // Suspend until this specific result is completed by ares.
         co_await resume_event;
@@ -172,41 +177,70 @@ private:
     /// The libc-ares channel for looking up dns entries.
     ares_channel m_ares_channel{nullptr};
 
+    /// A socket c-ares is using, shared with its poll task since the poll task can outlive the resolver.
+    struct active_socket
+    {
+        poll_op m_ops;
+        bool    m_active{true};
+    };
+
+    /// Serializes the use of the channel and its active sockets, shared with the poll tasks.
+    std::shared_ptr<std::recursive_mutex> m_channel_mutex{std::make_shared<std::recursive_mutex>()};
+
     /// This is the map of sockets that are currently being actively polled so multiple poll tasks
     /// are not setup when socket state is changed.
-    std::unordered_map<fd_t, poll_op> m_active_sockets{};
-
-    auto make_poll_task(fd_t fd) -> coro::task<void>
+    std::unordered_map<fd_t, std::shared_ptr<active_socket>> m_active_sockets{};
+
+    /// The channel can only be used while the socket is active.
+    static auto make_poll_task(
+        executor_type*                        executor,
+        std::shared_ptr<std::recursive_mutex> channel_mutex,
+        ares_channel                          channel,
+        std::shared_ptr<active_socket>        socket,
+        fd_t                                  fd,
+        std::chrono::milliseconds             timeout) -> coro::task<void>
     {
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-        while (m_active_sockets.contains(fd))
+        while (true)
         {
-            auto ops    = m_active_sockets[fd];
-            auto result = co_await m_executor->poll(fd, ops, m_timeout);
+            poll_op ops{};
+            {
+                std::scoped_lock g{*channel_mutex};
+                if (!socket->m_active)
+                {
+                    co_return;
+                }
+                ops = socket->m_ops;
+            }
+
+            auto result = co_await executor->poll(fd, ops, timeout);
+
+            std::scoped_lock g{*channel_mutex};
+            if (!socket->m_active)
+            {
+                co_return;
+            }
+
             switch (result)
             {
                 case poll_status::read:
-                    ares_process_fd(m_ares_channel, fd, ARES_SOCKET_BAD);
+                    ares_process_fd(channel, fd, ARES_SOCKET_BAD);
                     break;
                 case poll_status::write:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, fd);
+                    ares_process_fd(channel, ARES_SOCKET_BAD, fd);
                     break;
-
                 case poll_status::timeout:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
+                    ares_process_fd(channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
                 case poll_status::error:
                     // Let c-ares discover what happened to the socket, it'll close it and fail or retry its queries.
-                    ares_process_fd(m_ares_channel, fd, fd);
+                    ares_process_fd(channel, fd, fd);
                     break;
                 case poll_status::cancelled:
-                    m_active_sockets.erase(fd);
-                    break;
+                    co_return;
             }
         }
-
-        co_return;
     }
 
     static auto ares_socket_state_callback(void* data, ares_socket_t socket_fd, int readable, int writable) -> void
@@ -227,15 +261,27 @@ private:
         auto poll_ops = static_cast<poll_op>(ops);
         if (ops != 0)
         {
-            auto [it, inserted] = self->m_active_sockets.insert_or_assign(fd, poll_ops);
-            if (inserted)
+            auto& socket = self->m_active_sockets[fd];
+            if (socket != nullptr)
             {
-                self->m_executor->spawn_detached(self->make_poll_task(fd));
+                socket->m_ops = poll_ops;
+            }
+            else
+            {
+                socket = std::make_shared<active_socket>(poll_ops);
+                self->m_executor->spawn_detached(make_poll_task(
+                    self->m_executor.get(),
+                    self->m_channel_mutex,
+                    self->m_ares_channel,
+                    socket,
+                    fd,
+                    self->m_timeout));
             }
         }
-        else
+        else if (auto it = self->m_active_sockets.find(fd); it != self->m_active_sockets.end())
         {
-            self->m_active_sockets.erase(fd);
+            it->second->m_active = false;
+            self->m_active_sockets.erase(it);
         }
     }
 
-- 
2.43.0

