From 2ff87d0930d06ea2d14702c60ac77045c009119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 01/67] fix: inplace_stop_source: observing a stop request
 while registering a callback must synchronize with it

A callback that is registered after request_stop() runs inline in its constructor.  The stop flag was
observed with memory_order_relaxed, so the callback did not see the writes that happened before
request_stop() (a data race on weakly ordered machines).
---
 include/stdexec/stop_token.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..b75084a 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -325,7 +325,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     const noexcept -> bool
   {
     STDEXEC::__stok::__spin_wait __spin;
-    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
     do
     {
       while (true)
@@ -342,7 +342,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         else
         {
           __spin.__wait();
-          __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+          __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
         }
       }
     }
@@ -351,7 +351,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
                                              ? (__locked_flag_ | __stop_requested_flag_)
                                              : __locked_flag_,
                                            STDEXEC::__std::memory_order_acq_rel,
-                                           STDEXEC::__std::memory_order_relaxed));
+                                           STDEXEC::__std::memory_order_acquire));
 
     // Lock acquired successfully
     return true;
-- 
2.43.0


From f7eac9364a05dc108fa527e9d00edc2e2abee415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 02/67] fix: when_all completed twice when a stop request raced
 with the last arrival

The stop callback incremented the outstanding count unconditionally. When the
last child had already dropped it to zero and was waiting in the destructor of
the stop callback, the callback's own arrival took the count from one to zero
again and completed the receiver a second time (and could turn a success into
set_stopped after the fact).
---
 include/stdexec/__detail/__when_all.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..8f6d62d 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,21 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count has
+        // already dropped to zero, then the last child has arrived and is completing the
+        // operation; it is too late to request stop, and arriving again would complete the
+        // operation a second time.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From db0ba5fb10279051a9cffbdabb86b8d7f225a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 03/67] fix: when_any completed twice when a stop request raced
 with the last arrival

Same defect as in when_all: the stop callback re-incremented a count that had
already reached zero and completed the operation a second time.
---
 include/exec/when_any.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..0331a49 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,20 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count has
+          // already dropped to zero, then the last child has arrived and is completing the
+          // operation; arriving again would complete it a second time.
+          std::size_t __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__count == 0)
+            {
+              return;
+            }
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From 66da386205829f3221b50e248459fb71e8ac766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 04/67] fix: when_any left its stop callback registered when
 stopped before starting

The callback was only deregistered by the destructor of the operation state,
after the receiver had been completed, when the receiver's stop token (and the
stop source behind it) may be gone already.
---
 include/exec/when_any.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 0331a49..dc39951 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -240,6 +240,9 @@ namespace experimental::execution
                                  typename __op_base_t::__forward_stop_request{this});
         if (this->__stop_source_.stop_requested())
         {
+          // Stop callback is no longer needed. Destroy it before completing: the receiver's stop
+          // token is not valid after that.
+          this->__on_stop_.reset();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 291c5d6d1c0dcce201e35fe0e313967edfc629f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 05/67] fix: split/ensure_started lost the early stop when
 consumers detached concurrently

The last consumer was recognised by use_count() == 3 while every detaching
consumer still held its own reference and a temporary one, so two consumers
that went away at the same time both saw a larger count and neither asked the
operation to stop. Drop the consumer's reference and look at the count under
the shared state's mutex.
---
 include/exec/detail/shared.hpp | 47 ++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..eeaff96 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -170,7 +170,7 @@ namespace experimental::execution::__shared
     {
       if (__sh_state_)
       {
-        __sh_state_->__detach();
+        __sh_state_t::__detach(std::move(__sh_state_));
       }
     }
 
@@ -204,7 +204,7 @@ namespace experimental::execution::__shared
       // Otherwise, failed to add the waiter because of a stop-request.
       // Complete synchronously with set_stopped().
       __on_stop_.reset();
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_t::__detach(std::exchange(__sh_state_, {}));
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -231,7 +231,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_t::__detach(std::exchange(__sh_state_, {}));
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -413,22 +413,43 @@ namespace experimental::execution::__shared
       }
     }
 
-    constexpr void __detach() noexcept
+    // Releases a consumer's reference to the shared state.
+    static void __detach(std::shared_ptr<__shared_state> __self) noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
-      // early.
-      if (3 == __started_ptr.use_count())
+      std::shared_ptr<__shared_state> __started_ptr{};
       {
-        this->__stop_source_.request_stop();
+        // Consumers that detach concurrently must not see each other's references, or else none
+        // of them would see itself as the last one.
+        std::unique_lock     __lock{__self->__mutex_};
+        __shared_state* const __state = __self.get();
+        if (__state->__started_ref_.load())
+        {
+          // The operation is running. It keeps the shared state alive at least until the mutex is
+          // released, so it is safe to drop the consumer's reference here.
+          __self.reset();
+          __started_ptr = __state->__started_ref_.load();
+          // If the use count is 2 (one for __started_ref_ and one for __started_ptr), then the
+          // caller was the final "consumer".
+          if (2 != __started_ptr.use_count())
+          {
+            __started_ptr.reset();
+          }
+        }
+      }
+      if (__started_ptr)
+      {
+        // Ask the operation to stop early.
+        __started_ptr->__stop_source_.request_stop();
       }
     }
 
     constexpr virtual void __set_completed() noexcept final
     {
-      __started_ref_.store({}, __std::memory_order_release);
+      std::shared_ptr<__shared_state> __started_ptr{};
+      {
+        std::unique_lock __lock{this->__mutex_};
+        __started_ptr = __started_ref_.exchange({}, __std::memory_order_acq_rel);
+      }
     }
 
     __std::atomic_flag __started_{};
@@ -502,7 +523,7 @@ namespace experimental::execution::__shared
     {
       if (__sh_state_)
       {
-        __sh_state_->__detach();
+        __shared_state<_CvChild, _Env>::__detach(std::move(__sh_state_));
       }
     }
 
-- 
2.43.0


From fe017ffec1a4d386c8233290bef43687e01e9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 06/67] fix: spawn_future state destroyed while its stop
 callback was still using it

A stop request delivered to a started future forwards to the spawned work via
__stop_source_.request_stop(). When the work completes synchronously from its
own stop callback, the registered receiver is completed and the shared state is
destroyed before request_stop() and __try_cancel have returned. Give
__try_cancel its own share of the state.
---
 include/stdexec/__detail/__spawn_future.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..02936e4 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -375,8 +375,19 @@ namespace STDEXEC
       // before the producer could finish.
       void (*__callback_)(__spawn_future_state*, void*) noexcept;
 
+      // The number of parties that still need this object: the last of the producer and consumer,
+      // plus __try_cancel while it is running. See __do_try_cancel for why it needs its own share.
+      __std::atomic<unsigned int> __refs_{1u};
+
       void __destroy() noexcept
       {
+        // store-release to publish our writes to whoever destroys the object, load-acquire to
+        // consume everybody else's writes in case that's us
+        if (__refs_.fetch_sub(1u, __std::memory_order_acq_rel) != 1u)
+        {
+          return;
+        }
+
         [[maybe_unused]]
         auto __assoc = std::move(__assoc_);
 
@@ -459,6 +470,14 @@ namespace STDEXEC
       {
         auto* __self = static_cast<__spawn_future_state*>(__base_ptr);
 
+        // The call to request_stop() below may complete the spawned operation on this thread; if a
+        // receiver has already been registered then that completes the receiver, too, and drops the
+        // producer's share of this object while we, and the stop source, are still using it.
+        // Destroying the stop callback from within its own invocation doesn't block so we have to
+        // keep the object alive ourselves.
+        __self->__refs_.fetch_add(1u, __std::memory_order_relaxed);
+        __scope_guard __guard{[__self]() noexcept { __self->__destroy(); }};
+
         // Consider: there's a sense in which we only need to invoke request_stop if we've arrived
         //           here before the producer has invoked __complete so I wonder whether it's possible
         //           to avoid invoking request_stop when it's unnecessary. It might be.
-- 
2.43.0


From 7e53477a23c0bbc0502361ce40fe3f03b7f1ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 07/67] fix: async_scope future dropped after connect forwarded
 stop requests to freed state

~__future_opstate handed the shared state to the producer while its stop
callback, which points into that state, was still registered.
---
 include/exec/async_scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..52ac526 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -384,6 +384,9 @@ namespace experimental::execution
       {
         if (__state_ != nullptr)
         {
+          // The state may be destroyed as soon as it is given away below, so a stop request must
+          // not be forwarded to it any more.
+          __forward_consumer_.reset();
           auto             __raw_state = __state_.get();
           std::unique_lock __guard{__raw_state->__mutex_};
           if (__raw_state->__data_.index() > 0)
-- 
2.43.0


From 616254554f677ea5b8d1dbf8e2c62eeb0cbb5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 08/67] fix: bwos_lifo_queue: a thief claiming an item must
 synchronize with the owner's grant of the block

A thief loads steal_tail_ and tail_, and then claims an item with a relaxed CAS. Between
the loads and the CAS the owner can take the block over, replace its items and grant it
again with the same steal_tail_, so that the thief reads items whose writes do not happen
before the read.
---
 include/exec/detail/bwos_lifo_queue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..45b9079 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -552,8 +552,13 @@ namespace experimental::execution::bwos
       result.status = lifo_queue_error_code::empty;
       return result;
     }
-    // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    // Try to claim the item at spos by atomically incrementing steal_tail_. Acquire ordering
+    // synchronizes with grant(): the owner may have taken over the block, replaced items and
+    // granted it again since tail_ was loaded above.
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From dea92ae9e8e80559853cff21d526d67d25809e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 09/67] fix: timed_thread_context lost a wake-up when two
 submissions overlapped

---
 include/exec/timed_thread_scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..a904b6a 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -229,8 +229,10 @@ namespace experimental::execution
                                                          STDEXEC::__std::memory_order_relaxed);
         return;
       }
-      if (command_queue_.push_back(op))
+      command_queue_.push_back(op);
       {
+        // Wake the context unconditionally: that the queue was not empty does not mean that the context
+        // is going to look at it again, because a preceding push may still be in flight.
         std::scoped_lock lock{ready_mutex_};
         ready_ = true;
         cv_.notify_one();
-- 
2.43.0


From f6262121f0939dc88740b881b70a7375c48f9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 10/67] fix: timed_thread_context left submissions behind when
 it was destroyed

---
 include/exec/timed_thread_scheduler.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index a904b6a..c7cbaf2 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -151,6 +151,7 @@ namespace experimental::execution
 
     void run()
     {
+      bool closed = false;
       while (true)
       {
         while (command_type* op = command_queue_.pop_front())
@@ -172,6 +173,15 @@ namespace experimental::execution
             stop_op->set_value_(stop_op);
           }
         }
+        if (closed)
+        {
+          while (task_type* op = heap_.front())
+          {
+            heap_.pop_front();
+            op->set_stopped_(op);
+          }
+          break;
+        }
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -192,19 +202,13 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
-                                                            STDEXEC::__std::memory_order_relaxed))
+                                                            STDEXEC::__std::memory_order_acquire))
           {
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
-          op = heap_.front();
-          while (op)
-          {
-            heap_.pop_front();
-            op->set_stopped_(op);
-            op = heap_.front();
-          }
-          break;
+          // No more submissions. Process those that came in meanwhile before leaving.
+          closed = true;
         }
       }
     }
@@ -237,7 +241,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From 8e82e57983e4f9d164d1b4353092bb99795dc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 11/67] fix: timed_thread_scheduler ignored a stop request that
 arrived while the operation was being started

---
 include/exec/timed_thread_scheduler.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index c7cbaf2..5e107a7 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -104,6 +104,7 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* prev_  = nullptr;
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
+      bool                                  stopped_ = false;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
     };
 
@@ -159,6 +160,11 @@ namespace experimental::execution
           if (op->command_ == command_type::command_type::schedule)
           {
             auto* task  = static_cast<task_type*>(op);
+            if (task->stopped_)
+            {
+              task->set_stopped_(task);
+              continue;
+            }
             task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
             heap_.insert(task);
           }
@@ -170,6 +176,11 @@ namespace experimental::execution
             {
               stop_op->target_->set_stopped_(stop_op->target_);
             }
+            else
+            {
+              // Either the target has expired, or its submission is still on its way.
+              stop_op->target_->stopped_ = true;
+            }
             stop_op->set_value_(stop_op);
           }
         }
-- 
2.43.0


From 78bbe5af15f6b5edba09106eb83f3ff9365e2d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 12/67] fix: schedule_all: the sequence could complete, and be
 destroyed, while start() was still using it

---
 include/exec/static_thread_pool.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..e1520bf 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1574,7 +1574,8 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // one for each item, plus one for start()
+        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1668,7 +1669,7 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
+          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
           if (countdown == 1)
           {
             STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
@@ -1677,7 +1678,7 @@ namespace experimental::execution
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
+          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
           if (countdown == 1)
           {
             STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
@@ -1768,6 +1769,10 @@ namespace experimental::execution
           std::unique_lock lock{this->start_mutex_};
           this->has_started_ = true;
           this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          lock.unlock();
+
+          // The items may all have completed already: only now is it safe to let the receiver destroy *this.
+          next_receiver_t{this}.set_value();
         }
 
        private:
-- 
2.43.0


From d1d9ab495c61465905b3b01f0b57c32a112a5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 13/67] fix: let_value/let_error/let_stopped: do not terminate
 when moving the function throws

---
 include/stdexec/__detail/__let.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From e9601176185a0f54e31a99ec8384281976d831ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 14/67] fix: fork_join: do not terminate when connecting throws

---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From 6c0e6674be1a48ce5365673700173c98f8994b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 15/67] fix: finally: do not terminate when connecting throws

---
 include/stdexec/__detail/__finally.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..7f5e315 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -71,6 +71,7 @@ namespace STDEXEC
 
     template <class _Sender>
     static constexpr auto transform_sender(set_value_t, _Sender&& __sndr, __ignore)
+      noexcept(__nothrow_decay_copyable<_Sender>)
     {
       auto& [__tag, __ign, __initial, __final] = __sndr;
       return __final::__sender{STDEXEC::__forward_like<_Sender>(__initial),  //
@@ -167,7 +168,9 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_move_constructible<_Receiver, _Env2>
+                 && __nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -230,6 +233,12 @@ namespace STDEXEC
       constexpr explicit __opstate(_CvInitialSender&& __initial,
                                    _CvFinalSender&&   __final,
                                    _Receiver          __rcvr)
+        noexcept(__nothrow_constructible_from<__base_t,
+                                              typename __base_t::__cleanup_callback_t*,
+                                              _CvFinalSender,
+                                              _Receiver,
+                                              __env2_t>
+                 && __nothrow_connectable<_CvInitialSender, __initial_receiver_t>)
         : __base_t(&__cleanup_initial_opstate,
                    static_cast<_CvFinalSender&&>(__final),
                    static_cast<_Receiver&&>(__rcvr),
@@ -359,7 +368,11 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
+                                                _Receiver&&  __receiver)
+        noexcept(__nothrow_constructible_from<__opstate_t<_Self, _Receiver>,
+                                              __copy_cvref_t<_Self, _InitialSender>,
+                                              __copy_cvref_t<_Self, _FinalSender>,
+                                              _Receiver>)
         -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
-- 
2.43.0


From 145a89144c86b25d023e5e2ebdbde38d92dbf7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 16/67] fix: transform_sender: a throwing first transformation
 must not terminate

The noexcept of a multi-step transformation was that of its last step only.
The steps that do not throw now say so.
---
 include/stdexec/__detail/__bulk.hpp             | 1 +
 include/stdexec/__detail/__sequence.hpp         | 2 +-
 include/stdexec/__detail/__starts_on.hpp        | 1 +
 include/stdexec/__detail/__transform_sender.hpp | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__bulk.hpp b/include/stdexec/__detail/__bulk.hpp
index 337af08..8b8c8ed 100644
--- a/include/stdexec/__detail/__bulk.hpp
+++ b/include/stdexec/__detail/__bulk.hpp
@@ -424,6 +424,7 @@ namespace STDEXEC
   {
     template <class _Sender>
     static constexpr auto transform_sender(set_value_t, _Sender&& __sndr, __ignore)
+      noexcept(__nothrow_decay_copyable<_Sender>)
     {
       auto& [__tag, __data, __child] = __sndr;
       // Lower `bulk` to `bulk_chunked`. If `bulk_chunked` is customized, we will see the customization.
diff --git a/include/stdexec/__detail/__sequence.hpp b/include/stdexec/__detail/__sequence.hpp
index e4c61fd..d2591c7 100644
--- a/include/stdexec/__detail/__sequence.hpp
+++ b/include/stdexec/__detail/__sequence.hpp
@@ -471,7 +471,7 @@ namespace STDEXEC
 
     template <class _Self>
     static constexpr auto transform_sender(set_value_t, _Self &&__self, __ignore)  //
-      -> decltype(auto)
+      noexcept(__nothrow_decay_copyable<_Self>) -> decltype(auto)
     {
       constexpr std::size_t __nbr_sndrs = __nbr_children_of<_Self>;
       if constexpr (__nbr_sndrs == 0)
diff --git a/include/stdexec/__detail/__starts_on.hpp b/include/stdexec/__detail/__starts_on.hpp
index 21ccbd2..c4f756b 100644
--- a/include/stdexec/__detail/__starts_on.hpp
+++ b/include/stdexec/__detail/__starts_on.hpp
@@ -222,6 +222,7 @@ namespace STDEXEC
 
     template <__decay_copyable _Sender>
     static constexpr auto transform_sender(set_value_t, _Sender&& __sndr, __ignore)
+      noexcept(__nothrow_decay_copyable<_Sender>)
     {
       auto& [__tag, __sched, __child] = __sndr;
       // NOT TO SPEC: the specification requires that this be implemented in terms of
diff --git a/include/stdexec/__detail/__transform_sender.hpp b/include/stdexec/__detail/__transform_sender.hpp
index 88f2151..3d365cd 100644
--- a/include/stdexec/__detail/__transform_sender.hpp
+++ b/include/stdexec/__detail/__transform_sender.hpp
@@ -64,7 +64,7 @@ namespace STDEXEC
         }
         else if constexpr (__same_as<__result_t, _Sndr>)
         {
-          return __declfn<__result_t, __is_nothrow>();
+          return __declfn<__result_t, (_Nothrow && __is_nothrow)>();
         }
         else if constexpr (__same_as<_OpTag, start_t>)
         {
-- 
2.43.0


From 886d7cd7e5fcbd76addeac5ed56d1e60fd8efbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 17/67] fix: merge_each: complete the item when the sender of a
 nested sequence fails

When the sender of a nested sequence completed with an error or stopped, or when
subscribing to the nested sequence threw, only the count of active operations was
updated. The receiver of the outer sequence's item was never completed, so the
outer sequence, and with it merge_each, never completed.
---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..90a9f4b 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1029,7 +1029,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1038,12 +1038,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From 4fc32c56a863d49726580e6a3568f1fcb524a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 18/67] fix: merge_each: stop the active operations on an error
 for every receiver

The first error is documented to request stop on all active operations, which all
see the token of merge_each's own stop source. The request was skipped when the
receiver's own stop token is unstoppable.
---
 include/exec/sequence/merge_each.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 90a9f4b..2799516 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -125,11 +125,7 @@ namespace experimental::execution
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From 4e90e72568c285680cbaa785edba5daadae18d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 19/67] fix: merge_each: a stop request must not destroy the
 operation it is stopping

Forwarding the receiver's stop request to the nested stop source can complete the
last active operation, and so merge_each itself, while the nested stop source is
still calling its callbacks. Hold a count during the call, as when_all does.
---
 include/exec/sequence/merge_each.hpp | 37 ++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 2799516..acbf09f 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -72,16 +72,21 @@ namespace experimental::execution
       decltype(__env_with_inplace_stop_token(STDEXEC::__declval<STDEXEC::inplace_stop_source&>(),
                                              STDEXEC::__declval<_Env>()));
 
+    struct __stop_request_interface
+    {
+      virtual void forward_stop_request() noexcept = 0;
+    };
+
     template <class _Receiver>
     struct __nested_stop
     {
       struct __on_stop_request
       {
-        inplace_stop_source& __stop_source_;
+        __stop_request_interface& __op_;
 
         void operator()() noexcept
         {
-          __stop_source_.request_stop();
+          __op_.forward_stop_request();
         }
       };
       using __env_t           = env_of_t<_Receiver>;
@@ -96,13 +101,13 @@ namespace experimental::execution
       inplace_stop_source __stop_source_{};
       __callback_t        __on_stop_{};
 
-      void register_token(_Receiver& __receiver) noexcept
+      void register_token(_Receiver& __receiver, __stop_request_interface& __op) noexcept
       {
         if constexpr (!unstoppable_token<__stop_token_t>)
         {
           // register stop callback:
           __on_stop_.emplace(get_stop_token(STDEXEC::get_env(__receiver)),
-                             __on_stop_request{__stop_source_});
+                             __on_stop_request{__op});
         }
       }
 
@@ -168,7 +173,7 @@ namespace experimental::execution
     //
 
     template <class _ErrorStorage>
-    struct __operation_base_interface
+    struct __operation_base_interface : __stop_request_interface
     {
       virtual void nested_value_started() noexcept  = 0;
       virtual void nested_value_complete() noexcept = 0;
@@ -445,6 +450,24 @@ namespace experimental::execution
         set_break();
         complete_if_none_active();
       }
+      void forward_stop_request() noexcept override
+      {
+        // Temporarily increment the count so that the operation cannot complete, and be
+        // destroyed, while the nested stop source is still calling its callbacks. When the
+        // count has already dropped to zero, the operation is completing.
+        auto __count = __active_.load(std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__active_.compare_exchange_weak(__count, __count + 1));
+
+        __nested_stop_.request_stop();
+        complete_if_none_active();
+      }
       void error_complete() noexcept override
       {
         // The error has been delivered as an item. Complete the sequence so the consumer can
@@ -1182,7 +1205,8 @@ namespace experimental::execution
 
       void start() & noexcept
       {
-        this->__nested_stop_.register_token(this->__rcvr_);
+        this->sequence_started();
+        this->__nested_stop_.register_token(this->__rcvr_, *this);
         if (this->__nested_stop_.stop_requested())
         {
           // Stop has already been requested. Don't bother starting
@@ -1191,7 +1215,6 @@ namespace experimental::execution
         }
         else
         {
-          this->sequence_started();
           STDEXEC::start(__op_);
         }
       }
-- 
2.43.0


From 486d116c7293b5872b2700d0a774b405d055f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 20/67] fix: merge_each: deregister the stop callback before
 completing with stopped in start

---
 include/exec/sequence/merge_each.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index acbf09f..46797ae 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1211,6 +1211,7 @@ namespace experimental::execution
         {
           // Stop has already been requested. Don't bother starting
           // the child operations.
+          this->__nested_stop_.unregister_token();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 754389bf823a1427179ed63b6271bf29f27514cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 21/67] fix: let a stop callback destroy the
 inplace_stop_source that is notifying it

An operation that owns an inplace_stop_source and forwards its receiver's stop
requests to it can be completed, and destroyed, from within the stop callback
of one of its children. request_stop() then went on to use the destroyed
source. It affected stdexec::task and exec::task (and type-erased senders)
whenever the stop token of the receiver is not an inplace_stop_token.
---
 include/stdexec/stop_token.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index b75084a..0254eee 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -158,6 +158,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    // Points to a local of request_stop() while it is running. It lets a callback destroy the stop
+    // source, e.g., as a consequence of completing the operation that owns it:
+    bool* __destroyed_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -258,6 +261,8 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
   {
     STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
     STDEXEC_ASSERT(__callbacks_ == nullptr);
+    if (__destroyed_ != nullptr)
+      *__destroyed_ = true;
   }
 
   inline auto inplace_stop_source::request_stop() noexcept -> bool
@@ -267,6 +272,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
     __notifying_thread_ = std::this_thread::get_id();
 
+    bool __destroyed = false;
+    __destroyed_     = &__destroyed;
+
     // We are responsible for executing callbacks.
     while (__callbacks_ != nullptr)
     {
@@ -283,6 +291,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
       __callbk->__execute();
 
+      if (__destroyed)
+        return true;  // the callback destroyed *this
+
       if (!__removed_during_callback)
       {
         __callbk->__removed_during_callback_ = nullptr;
@@ -292,6 +303,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       __lock_();
     }
 
+    __destroyed_ = nullptr;
     __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
     return true;
   }
-- 
2.43.0


From 4286207ffeb9ad2818f173a1bf418d444f61aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 22/67] fix: erasing a value whose move constructor throws must
 not terminate

__box was declared noexcept for every value type.
---
 include/stdexec/__detail/__any.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..395748e 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -485,12 +485,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
-- 
2.43.0


From 1ccf620c04d7ef2faa14d46a2b0706423d51ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 23/67] fix: exec::function: use the allocator of the
 receiver's environment

__choose_frame_allocator was handed the receiver instead of its environment, so
the query was never found and the receiver's allocator was never used.
---
 include/exec/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index f0ba12f..0c4b9e0 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -141,14 +141,14 @@ namespace experimental::execution
       using __receiver_t   = __receiver_wrapper<__any_receiver_ref<_Sigs, _Queries>>;
       using __prop_t       = __receiver_t::__prop_t;
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
-      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<_Receiver const &>()));
+      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<env_of_t<_Receiver>>()));
 
       __memory_resource_adaptor_t<__adaptee_t> __resource_;
       __prop_t                                 __env_;
       _any::_state<_Receiver, __stop_token_t>  __rcvr_;
 
       explicit __opstate_base(_Receiver __rcvr)
-        : __resource_(__choose_frame_allocator(std::as_const(__rcvr)))
+        : __resource_(__choose_frame_allocator(STDEXEC::get_env(std::as_const(__rcvr))))
         , __env_(__make_env())
         , __rcvr_(static_cast<_Receiver &&>(__rcvr))
       {}
-- 
2.43.0


From e1a388b4221efd6e775b7b865cffb7bc8e5ea49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 24/67] fix: parallel scheduler: release the backend when a
 schedule operation does not complete with a value

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..4e99ca6 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -209,6 +209,14 @@ namespace STDEXEC
 
       STDEXEC_IMMOVABLE(__system_op);
 
+      ~__system_op()
+      {
+        if (__owns_backend_)
+        {
+          std::destroy_at(&__preallocated_.__as<__backend_ptr_t>());
+        }
+      }
+
       /// Starts the work stored in `this`.
       void start() & noexcept
       {
@@ -221,6 +229,7 @@ namespace STDEXEC
         auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
         auto  __impl       = std::move(__sched_impl);
         std::destroy_at(&__sched_impl);
+        __owns_backend_ = false;
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
@@ -233,6 +242,9 @@ namespace STDEXEC
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
+
+      /// True as long as __preallocated_ holds the pointer to the backend.
+      bool __owns_backend_ = true;
     };
   }  // namespace __detail
 
-- 
2.43.0


From e8c84f4c03257a92bd6deb0a8b89cb1235bf6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 25/67] fix: parallel scheduler: destroy the predecessor of a
 bulk operation that never reaches the bulk

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 4e99ca6..0da13f6 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -609,12 +609,16 @@ namespace STDEXEC
       /// Preallocated space for storing the inner operation state, and then storage space for the backend call.
       __aligned_storage<_PreallocatedSize, _PreallocatedAlign> __preallocated_;
 
+      /// True as long as __preallocated_ holds the inner operation state.
+      bool __has_inner_op_ = false;
+
       /// Destroys the inner operation state object, and returns the preallocated storage for it to be used by the backend.
       static auto
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
+        __self->__has_inner_op_ = false;
         __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
@@ -636,6 +640,16 @@ namespace STDEXEC
 
         // Start using the preallocated buffer to store the inner operation state.
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
+        __has_inner_op_ = true;
+      }
+
+      ~__system_bulk_op()
+      {
+        // If the bulk work was never started, the inner operation state is still alive.
+        if (__has_inner_op_)
+        {
+          __preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        }
       }
 
       __system_bulk_op(__system_bulk_op const &)                    = delete;
-- 
2.43.0


From 8ebe5a3fabc45df499442c4b8f20205570f47c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 26/67] fix: parallel scheduler: deliver an exception thrown
 while storing the predecessor's values

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 0da13f6..bf12ec9 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -532,8 +532,17 @@ namespace STDEXEC
         // Store the input data in the shared state.
         using __typed_forward_args_receiver_t =
           __typed_forward_args_receiver<_Previous, _BulkState, _As...>;
-        auto __r = new (&__state_.__forward_args_helper_)
-          __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        __typed_forward_args_receiver_t* __r = nullptr;
+        STDEXEC_TRY
+        {
+          __r = new (&__state_.__forward_args_helper_)
+            __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          STDEXEC::set_error(std::move(__state_.__rcvr_), std::current_exception());
+          return;
+        }
 
         auto __scheduler = __sched_;
         auto __size      = static_cast<size_t>(__state_.__size_);
-- 
2.43.0


From 03a67d9c0ad54e51fda4f1c66a3fd7a4ba941bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 27/67] fix: task_scheduler: a sequential bulk must run each
 index exactly once

---
 include/stdexec/__detail/__task_scheduler.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..6cb8b9a 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -381,15 +381,17 @@ namespace STDEXEC
           __state_->__values_.template emplace<__values_t>(static_cast<_As&&>(__as)...);
 
           // Start the bulk operation.
+          // If the work may not be parallelized, a single call to execute does all of it.
+          size_t const __count = __state_->__parallelize ? __state_->__shape_ : 1;
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__count,
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__count,
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -523,10 +525,6 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
@@ -544,6 +542,11 @@ namespace STDEXEC
       template <class, class, class, class, class>
       friend struct __bulk_receiver;
 
+      using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+      static constexpr bool __parallelize =
+        __same_as<__policy_t, STDEXEC::parallel_policy>
+        || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
-- 
2.43.0


From e6e97135038fc034b8c031fdeb85d0f8a4048779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 28/67] fix: task_scheduler: an exception thrown by a bulk
 function completes the operation only once

---
 include/stdexec/__detail/__task_scheduler.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 6cb8b9a..f4174b3 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -28,6 +28,7 @@ import stdexec;
 // include these after __execution_fwd.hpp
 #  include "__any.hpp"
 #  include "__bulk.hpp"
+#  include "__atomic.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
 #  include "__domain.hpp"
@@ -513,6 +514,11 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        if (__failed_.load(__std::memory_order_relaxed))
+        {
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__eptr_));
+          return;
+        }
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -534,7 +540,12 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Other calls to execute may be running or yet to come, so keep the (first)
+          // exception until the backend says that the work is over.
+          if (!__failed_.exchange(true, __std::memory_order_relaxed))
+          {
+            __eptr_ = std::current_exception();
+          }
         }
       }
 
@@ -549,6 +560,8 @@ namespace STDEXEC
 
       _Fn                          __fn_;
       size_t                       __shape_;
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __eptr_{};
       _Values                      __values_{__no_init};
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
-- 
2.43.0


From 52422bd2b780d6af96e0123b068c043bd9c98bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 29/67] fix: task_scheduler: forward stop requests from every
 kind of stop token

---
 include/stdexec/__detail/__task_scheduler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index f4174b3..6c5575d 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -313,6 +313,9 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // Forward stop requests from a stop token of a type that the backend doesn't know. If stop
+        // was requested already, the backend sees that and completes with stopped.
+        static_cast<void>(__rcvr_proxy_.__register_stop_callback());
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From 643d3fae304bd7fa210d286115af79532663ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 30/67] fix: parallel scheduler: concurrent first uses must
 agree on one context

---
 .../__detail/__parallel_scheduler_default_impl.hpp     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
index 86ce869..d0553de 100644
--- a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
@@ -350,11 +350,15 @@ namespace STDEXEC::__parallel_scheduler_default_impl
       // Note: we are lazy-loading the instance to avoid creating it if it is not needed.
       auto __new_instance = __factory_.load(__std::memory_order_relaxed)();
 
-      // Store the newly created instance.
+      // Store the newly created instance, unless another thread was faster; then use that one.
       __acquire_instance_lock();
-      __instance_ = __new_instance;
+      if (!__instance_)
+      {
+        __instance_ = __new_instance;
+      }
+      __rcvr = __instance_;
       __release_instance_lock();
-      return __new_instance;
+      return __rcvr;
     }
 
     /// Set `__new_factory` as the new factory for `_Interface` and return the old one.
-- 
2.43.0


From edce8f4c37f944baf405cb30d165e12069a7cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 31/67] fix: task_scheduler: deliver a failed bulk setup as an
 error

---
 include/stdexec/__detail/__parallel_scheduler_backend.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..d604f95 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -235,7 +235,11 @@ namespace STDEXEC
 
       void set_error(std::exception_ptr eptr) noexcept final
       {
-        if constexpr (_Infallible)
+        // Bulk work can fail even on an infallible scheduler, e.g. to allocate its operation state.
+        if constexpr (_Infallible
+                      && !__std::derived_from<
+                        _RcvrProxy,
+                        parallel_scheduler_replacement::bulk_item_receiver_proxy>)
         {
           STDEXEC_ASSERT(!+"set_error called on an infallible receiver proxy");
           __std::unreachable();
-- 
2.43.0


From 3afdc40928a6a8d8b64ccf9c421496fe3da443ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 32/67] fix: parallel scheduler: deliver an exception thrown
 while passing on the values of a bulk operation

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index bf12ec9..05e9471 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -383,12 +383,20 @@ namespace STDEXEC
       void set_value() noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
-        auto __args  = std::move(__base_t::__arguments_.__get());
-        __base_t::__arguments_.__destroy();
-        std::destroy_at(this);
-        std::apply([&](auto&&... __args)
-                   { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
-                   std::move(__args));
+        STDEXEC_TRY
+        {
+          // Only moving the arguments can throw, and then they are still there.
+          auto __args = std::move(__base_t::__arguments_.__get());
+          __base_t::__arguments_.__destroy();
+          std::destroy_at(this);
+          std::apply([&](auto&&... __args)
+                     { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
+                     std::move(__args));
+        }
+        STDEXEC_CATCH_ALL
+        {
+          set_error(std::current_exception());
+        }
       }
 
       /// Calls `set_error()` on the final receiver of the bulk operation, passing `__ex`.
-- 
2.43.0


From 1730ca3f4dba65abbd1b3935ed418124164e77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 33/67] fix: io_uring_context: report the error code of a
 failed io_uring_setup

syscall() returns -1 and sets errno, so that every failure was reported as EPERM.
---
 include/exec/linux/io_uring_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..0baeb8e 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -72,7 +72,7 @@ namespace experimental::execution
     __io_uring_setup(unsigned __entries, ::io_uring_params& __params) -> safe_file_descriptor
     {
       int rc = static_cast<int>(::syscall(__NR_io_uring_setup, __entries, &__params));
-      __throw_error_code_if(rc < 0, -rc);
+      __throw_error_code_if(rc < 0, errno);
       return safe_file_descriptor{rc};
     }
 
-- 
2.43.0


From 10dbdc97298c8b197c0a61b474ef8a5b85f72301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 34/67] fix: io_uring_context: run() completed twice when the
 context was already running

---
 include/exec/linux/io_uring_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 0baeb8e..8b5c285 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -669,6 +669,7 @@ namespace experimental::execution
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
-- 
2.43.0


From bde13f41cfcd1a07b8b7d700f48d7d1da28b9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 35/67] fix: io_uring_context: a timer started after the
 context has stopped never completed

---
 include/exec/linux/io_uring_context.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 8b5c285..0d1b412 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -1044,7 +1044,8 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // The count is zero if the context stopped this operation without having submitted it.
+        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) <= 1)
         {
           __on_context_stop_.reset();
           __on_receiver_stop_.reset();
-- 
2.43.0


From 488315e22274665a6aa749a7974b2ec6c1dccf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 36/67] fix: io_uring_context: running the context again never
 returned

Every run submitted the wakeup operation again although run_until_empty() and finish()
leave it in the ring, so that two of them were waiting from then on and the loop did
not recognize that there was nothing else left to do.
---
 include/exec/linux/io_uring_context.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 0d1b412..b38af2b 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -342,6 +342,9 @@ namespace experimental::execution
     {
       __context* __context_ = nullptr;
       int        __eventfd_ = -1;
+      // True while this operation waits to be submitted or completed. It stays in the ring when
+      // the run loop is left without stopping the context.
+      bool       __armed_ = false;
 #    ifdef STDEXEC_HAS_IORING_OP_READ
       std::uint64_t __buffer_ = 0;
 #    else
@@ -372,6 +375,7 @@ namespace experimental::execution
       static void __complete_(__task* __pointer, ::io_uring_cqe const &) noexcept
       {
         __wakeup_operation& __self = *static_cast<__wakeup_operation*>(__pointer);
+        __self.__armed_            = false;
         __self.start();
       }
 
@@ -558,7 +562,7 @@ namespace experimental::execution
           }
           else
           {
-            // This can only happen for the very first pass of run_until_stopped()
+            // This does nothing if a previous pass has left the wakeup operation in the ring.
             __wakeup_operation_.start();
           }
         }
@@ -744,8 +748,9 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
+      if (!__armed_ && !__context_->__stop_source_->stop_requested())
       {
+        __armed_ = true;
         __context_->__pending_.push_front(this);
       }
     }
-- 
2.43.0


From 5e333d960f90a30a1b66cb0ff43de9158681558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 37/67] fix: io_uring_context: a stop request concurrent with
 the end of a run

The request can arrive when the loop has been left with the wakeup operation still in the ring.
---
 include/exec/linux/io_uring_context.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index b38af2b..6ac22c4 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -597,9 +597,10 @@ namespace experimental::execution
           __pending_.append(__requests_.pop_all_reversed());
         }
         STDEXEC_ASSERT(__n_total_submitted_ <= 1);
-        if (__stop_source_->stop_requested() && __pending_.empty())
+        // If the loop was left with the wakeup operation still in the ring and the context was stopped
+        // just then, the next run completes the stop.
+        if (__n_total_submitted_ == 0 && __stop_source_->stop_requested() && __pending_.empty())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
-- 
2.43.0


From 99a35809bd5fdd42d2472f7f95ec1e2e79286fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 38/67] fix: io_uring_context: a cancellation left over when
 the context stops was never completed

It was put into the submission queue after the last io_uring_enter, and the operation
waiting for it never completed.
---
 include/exec/linux/io_uring_context.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 6ac22c4..9687bfb 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -618,14 +618,24 @@ namespace experimental::execution
                          == __no_new_submissions);
           // There could have been requests in flight. Complete all of them
           // and then stop it, finally.
+          // Nothing is left in the ring, so cancellations need not be submitted either.
           __pending_.append(__requests_.pop_all_reversed());
-          __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                      __pending_),
-                                                                    __params_.cq_entries,
-                                                                    true);
-          STDEXEC_ASSERT(__result.__n_submitted == 0);
-          STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          __task_queue __ready{};
+          while (!__pending_.empty())
+          {
+            __task* __op = __pending_.pop_front();
+            if (__op->__vtable_->__ready_(__op))
+            {
+              __ready.push_back(__op);
+            }
+            else
+            {
+              ::io_uring_sqe __dummy_sqe{};
+              __op->__vtable_->__submit_(__op, __dummy_sqe);
+              __stop(__op);
+            }
+          }
+          __completion_queue_.complete(static_cast<__task_queue&&>(__ready));
         }
       }
 
-- 
2.43.0


From 1e0e4d4218ad2ba022e401d58289991af9ba847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 39/67] fix: io_uring_context: tasks that did not fit into the
 submission queue waited for another one to complete

---
 include/exec/linux/io_uring_context.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 9687bfb..fd3fffd 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -579,7 +579,12 @@ namespace experimental::execution
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
-          constexpr int __min_complete = 1;
+          // Do not wait while there are tasks left that only did not fit into the submission queue.
+          unsigned const __min_complete = __pending_.empty()
+                                               || std::cmp_equal(__n_total_submitted_,
+                                                                 __params_.cq_entries)
+                                          ? 1
+                                          : 0;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
                          && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
           int rc = __io_uring_enter(__ring_fd_,
-- 
2.43.0


From 26b735af6124010597d887c1f52299bdff7539fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 40/67] fix: io_uring_context: a second stop request must not
 submit the cancellation again while it is in flight

If the cancelled operation has completed and its cancellation has not, the count of
outstanding operations is one, as if the operation was still running.
---
 include/exec/linux/io_uring_context.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index fd3fffd..3e4e8b9 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -939,7 +939,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__op_->__n_ops_.fetch_sub(2, STDEXEC::__std::memory_order_relaxed) == 2)
         {
           __op_->__on_context_stop_.reset();
           __op_->__on_receiver_stop_.reset();
@@ -949,9 +949,11 @@ namespace experimental::execution
 
       void start() & noexcept
       {
+        // This operation counts twice, so that it is not started again while it is in flight and the
+        // operation it stops has already completed.
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
-                                                    2,
+                                                    3,
                                                     STDEXEC::__std::memory_order_relaxed))
         {
           if (__op_->context().submit(this))
-- 
2.43.0


From 0dc91c3ae1f5b019ac769314def7f34962b30530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 41/67] fix: io_uring_context: cancellations submitted after a
 stop request did not wake up the context

The wakeup operation was not submitted any more once a stop was requested, although
operations may have to be cancelled from then on. The context then waited for one of
them to complete by itself.
---
 include/exec/linux/io_uring_context.hpp | 75 +++++++++++++++++--------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 3e4e8b9..e51aa38 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -233,8 +233,11 @@ namespace experimental::execution
       // If is_stopped is true, no new tasks are submitted to the io_uring unless it is a cancellation.
       // If is_stopped is true and a task is not ready to be completed, the task is completed with
       // an io_uring_cqe object with the result field set to -ECANCELED.
-      auto submit(__task_queue __tasks, __u32 __max_submissions, bool __is_stopped) noexcept
-        -> __submission_result
+      // The wakeup operation is submitted even if is_stopped is true.
+      auto submit(__task_queue  __tasks,
+                  __u32         __max_submissions,
+                  bool          __is_stopped,
+                  __task const* __wakeup) noexcept -> __submission_result
       {
         __u32 __tail          = __tail_.load(STDEXEC::__std::memory_order_relaxed);
         __u32 __head          = __head_.load(STDEXEC::__std::memory_order_acquire);
@@ -257,10 +260,11 @@ namespace experimental::execution
           else
           {
             __op->__vtable_->__submit_(__op, __sqe);
+            bool __stop_op = __is_stopped && __op != __wakeup;
 #    ifdef STDEXEC_HAS_IO_URING_ASYNC_CANCELLATION
-            __is_stopped = __is_stopped && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
+            __stop_op = __stop_op && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
 #    endif
-            if (__is_stopped)
+            if (__stop_op)
             {
               __stop(__op);
             }
@@ -388,6 +392,8 @@ namespace experimental::execution
       {}
 
       void start() & noexcept;
+
+      void __arm() noexcept;
     };
 
     class __scheduler;
@@ -511,30 +517,13 @@ namespace experimental::execution
         __n_total_submitted_ -= __completion_queue_.complete();
         STDEXEC_ASSERT(0 <= __n_total_submitted_
                        && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
-        __u32 __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
-        __pending_.append(__requests_.pop_all_reversed());
-        __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                    __pending_),
-                                                                  __max_submissions,
-                                                                  __stop_source_->stop_requested());
-        __n_total_submitted_ += __result.__n_submitted;
-        __n_newly_submitted_ += __result.__n_submitted;
-        STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
-        __pending_ = static_cast<__task_queue&&>(__result.__pending);
+        __submission_result __result = __submit_pending();
         while (!__result.__ready.empty())
         {
           __n_total_submitted_ -= __completion_queue_.complete(
             static_cast<__task_queue&&>(__result.__ready));
           STDEXEC_ASSERT(0 <= __n_total_submitted_);
-          __pending_.append(__requests_.pop_all_reversed());
-          __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
-          __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
-                                                __max_submissions,
-                                                __stop_source_->stop_requested());
-          __n_total_submitted_ += __result.__n_submitted;
-          __n_newly_submitted_ += __result.__n_submitted;
-          STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
-          __pending_ = static_cast<__task_queue&&>(__result.__pending);
+          __result = __submit_pending();
         }
       }
 
@@ -579,6 +568,13 @@ namespace experimental::execution
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
+          // The wakeup operation is all that is left of a stopped context. It completes and is not
+          // started again.
+          if (__n_total_submitted_ == 1 && __wakeup_operation_.__armed_
+              && __stop_source_->stop_requested())
+          {
+            wakeup();
+          }
           // Do not wait while there are tasks left that only did not fit into the submission queue.
           unsigned const __min_complete = __pending_.empty()
                                                || std::cmp_equal(__n_total_submitted_,
@@ -745,6 +741,29 @@ namespace experimental::execution
      private:
       friend struct __wakeup_operation;
 
+      auto __submit_pending() noexcept -> __submission_result
+      {
+        __u32 const __max_submissions = __params_.cq_entries
+                                      - static_cast<__u32>(__n_total_submitted_);
+        __pending_.append(__requests_.pop_all_reversed());
+        // A stopped context has to be woken up, too, as long as there are operations to be cancelled.
+        bool const __is_stopped = __stop_source_->stop_requested();
+        if (!__is_stopped || __n_total_submitted_ > 0)
+        {
+          __wakeup_operation_.__arm();
+        }
+        __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
+                                                                    __pending_),
+                                                                  __max_submissions,
+                                                                  __is_stopped,
+                                                                  &__wakeup_operation_);
+        __n_total_submitted_ += __result.__n_submitted;
+        __n_newly_submitted_ += __result.__n_submitted;
+        STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
+        __pending_ = static_cast<__task_queue&&>(__result.__pending);
+        return __result;
+      }
+
       // This constant is used for __n_submissions_in_flight to indicate that no new submissions
       // to this context will be completed by this context.
       static constexpr int __no_new_submissions = -1;
@@ -764,7 +783,15 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__armed_ && !__context_->__stop_source_->stop_requested())
+      if (!__context_->__stop_source_->stop_requested())
+      {
+        __arm();
+      }
+    }
+
+    inline void __wakeup_operation::__arm() noexcept
+    {
+      if (!__armed_)
       {
         __armed_ = true;
         __context_->__pending_.push_front(this);
-- 
2.43.0


From 1d9e6fa07ce4517acccd59a626443a29969c5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:05 +0000
Subject: [PATCH 42/67] fix: io_uring_context: an operation can be completed by
 the thread that stops it

This happens when its stop callback runs while the context completes its last operations.
The thread that completes it must see what the other one has written.
---
 include/exec/linux/io_uring_context.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index e51aa38..8e79a7b 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -966,7 +966,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(2, STDEXEC::__std::memory_order_relaxed) == 2)
+        if (__op_->__n_ops_.fetch_sub(2, STDEXEC::__std::memory_order_acq_rel) == 2)
         {
           __op_->__on_context_stop_.reset();
           __op_->__on_receiver_stop_.reset();
@@ -981,7 +981,7 @@ namespace experimental::execution
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
                                                     3,
-                                                    STDEXEC::__std::memory_order_relaxed))
+                                                    STDEXEC::__std::memory_order_acquire))
         {
           if (__op_->context().submit(this))
           {
@@ -1095,7 +1095,7 @@ namespace experimental::execution
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
         // The count is zero if the context stopped this operation without having submitted it.
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) <= 1)
+        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) <= 1)
         {
           __on_context_stop_.reset();
           __on_receiver_stop_.reset();
-- 
2.43.0


From 02f50c57d60a8c7dc3c71675951214cf7a0ce28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:45 +0000
Subject: [PATCH 43/67] fix: exec::task: a failing reschedule_coroutine_on
 terminated the program instead of throwing

---
 include/exec/task.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..d8438c2 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -454,7 +454,7 @@ namespace experimental::execution
             (void) __guard.await_resume();
           }
 
-          __p.__context_->set_scheduler(__new_sched_);
+          __promise_ = std::addressof(__p);
           auto& __op = __opstate_.__emplace_from(STDEXEC::connect,
                                                  unstoppable(schedule(__new_sched_)),
                                                  __receiver_t{__eptr_, __h});
@@ -468,15 +468,18 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
           std::rethrow_exception(std::move(__eptr_));
         }
+        // The transition succeeded. From now on, the coroutine is affine to the new scheduler.
+        __promise_->__context_->set_scheduler(__new_sched_);
       }
 
       _Scheduler              __new_sched_;
+      _Promise*               __promise_{};
       std::exception_ptr      __eptr_{};
       __optional<__opstate_t> __opstate_{};
     };
-- 
2.43.0


From caef1bd269539d46eb8c61dfa771410898bb0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 44/67] fix: exec::task does not compile after
 exec/variant_sender.hpp

The unqualified __var::__get found the namespace experimental::execution::__var
of variant_sender.hpp when that header was included first.
---
 include/exec/task.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index d8438c2..95d1b5e 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -695,10 +695,10 @@ namespace experimental::execution
             { STDEXEC::__coroutine_destroy_nothrow(std::exchange(__coro_, {})); }};
 
           if (__coro_.promise().__data_.index() == 1)
-            std::rethrow_exception(std::move(__var::__get<1>(__coro_.promise().__data_)));
+            std::rethrow_exception(std::move(STDEXEC::__var::__get<1>(__coro_.promise().__data_)));
 
           if constexpr (!std::is_void_v<_Ty>)
-            return std::move(__var::__get<0>(__coro_.promise().__data_));
+            return std::move(STDEXEC::__var::__get<0>(__coro_.promise().__data_));
         }
 
         __std::coroutine_handle<__promise>                       __coro_{};
-- 
2.43.0


From a44146ef6940c9f8f58f65c67a5637e5340e604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 45/67] fix: deregister the stop callback before completing a
 stopped split consumer

A consumer of split or ensure_started that completed because of a stop request
left its callback registered, and deregistered it when the operation was
destroyed, when the receiver's stop source may be gone.
---
 include/exec/detail/shared.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index eeaff96..b168de3 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -231,6 +231,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
+      __on_stop_.reset();
       __sh_state_t::__detach(std::exchange(__sh_state_, {}));
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
-- 
2.43.0


From b57217d4ad6c25244f3bd6e0ebfe5ada4b625182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:07 +0000
Subject: [PATCH 46/67] fix: exec::task: deregister the stop callback before
 completing as stopped

With a stop token other than inplace_stop_token, a task that completed as stopped
left its callback on the token of its parent registered until its awaiter was
destroyed, when the stop source may be gone.
---
 include/exec/task.hpp | 48 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 95d1b5e..de3d1a7 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -247,20 +247,26 @@ namespace experimental::execution
       template <__scheduler_affinity _Affinity>
       constexpr explicit __default_awaiter_context(__default_task_context_impl<_Affinity>& __self,
                                                    _ParentPromise& __parent) noexcept
-        // Register a callback that will request stop on this basic_task's
-        // stop_source when stop is requested on the parent coroutine's stop
-        // token.
-        : __stop_callback_{get_stop_token(get_env(__parent)),
-                           __forward_stop_request{__stop_source_}}
       {
         static_assert(std::is_nothrow_constructible_v<__stop_callback_t,
                                                       __stop_token_t,
                                                       __forward_stop_request<>>);
         __self.__stop_token_ = __stop_source_.get_token();
+        // Register a callback that will request stop on this basic_task's
+        // stop_source when stop is requested on the parent coroutine's stop
+        // token.
+        __stop_callback_.emplace(get_stop_token(get_env(__parent)),
+                                 __forward_stop_request{__stop_source_});
       }
 
-      inplace_stop_source __stop_source_{};
-      __stop_callback_t   __stop_callback_;
+      // Called when the task completes as stopped, before its parent is told.
+      constexpr void __unsubscribe() noexcept
+      {
+        __stop_callback_.reset();
+      }
+
+      inplace_stop_source           __stop_source_{};
+      __optional<__stop_callback_t> __stop_callback_{};
     };
 
     // If the parent coroutine's type has a stop token of type inplace_stop_token,
@@ -321,6 +327,11 @@ namespace experimental::execution
         }
       }
 
+      void __unsubscribe() noexcept
+      {
+        __stop_callback_.reset();
+      }
+
       inplace_stop_source __stop_source_{};
       std::any            __stop_callback_{};
     };
@@ -648,8 +659,21 @@ namespace experimental::execution
           return *__context_;
         }
 
+        [[nodiscard]]
+        constexpr auto unhandled_stopped() noexcept -> __std::coroutine_handle<>
+        {
+          // The parent's stop source may be gone once the parent knows about the completion.
+          if (__unsubscribe_)
+          {
+            std::exchange(__unsubscribe_, nullptr)(__awaiter_context_);
+          }
+          return with_awaitable_senders<__promise>::unhandled_stopped();
+        }
+
         __optional<__promise_context_t> __context_{};
         bool                            __rescheduled_{false};
+        void*                           __awaiter_context_{};
+        void (*__unsubscribe_)(void*) noexcept {};
       };
 
       template <class _ParentPromise>
@@ -677,7 +701,15 @@ namespace experimental::execution
         {
           static_assert(__one_of<_ParentPromise, _ParentPromise2, void>);
           __coro_.promise().__context_.emplace(__parent.promise());
-          __context_.emplace(*__coro_.promise().__context_, __parent.promise());
+          auto& __context = __context_.emplace(*__coro_.promise().__context_, __parent.promise());
+          if constexpr (requires { __context.__unsubscribe(); })
+          {
+            __coro_.promise().__awaiter_context_ = std::addressof(__context);
+            __coro_.promise().__unsubscribe_     = [](void* __ctx) noexcept
+            {
+              static_cast<__decay_t<decltype(__context)>*>(__ctx)->__unsubscribe();
+            };
+          }
           __coro_.promise().set_continuation(__parent);
           if constexpr (requires { __coro_.promise().stop_requested() ? 0 : 1; })
           {
-- 
2.43.0


From 910e39ea91804c813f5e6bec99591f837eda5bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:01 +0000
Subject: [PATCH 47/67] fix: libdispatch bulk no longer touches its state after
 submitting the last task

---
 include/exec/libdispatch_queue.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/exec/libdispatch_queue.hpp b/include/exec/libdispatch_queue.hpp
index 24bf272..00701f9 100644
--- a/include/exec/libdispatch_queue.hpp
+++ b/include/exec/libdispatch_queue.hpp
@@ -460,11 +460,19 @@ namespace experimental::execution
       void enqueue() noexcept
       {
         using bulk_task = shared_state::bulk_task;
-        shared_state_.tasks_.reserve(static_cast<std::size_t>(shared_state_.shape_));
-        for (Shape i{}; i != shared_state_.shape_; ++i)
+        Shape const shape = shared_state_.shape_;
+        shared_state_.tasks_.reserve(static_cast<std::size_t>(shape));
+        for (Shape i{}; i != shape; ++i)
         {
           shared_state_.tasks_.push_back(bulk_task(&shared_state_, i));
-          queue_.submit(&(shared_state_.tasks_.back()));
+        }
+        //  Once the last task is submitted, the operation may complete and *this and the shared
+        //  state may be destroyed, so neither can be used from there on.
+        bulk_task         *tasks = shared_state_.tasks_.data();
+        libdispatch_queue &queue = queue_;
+        for (Shape i{}; i != shape; ++i)
+        {
+          queue.submit(tasks + i);
         }
       }
 
-- 
2.43.0


From 1bb351aa617fbcfcdfa05ab85fb900c8f667aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 48/67] fix: finally runs the final sender also when the result
 of the initial sender cannot be stored

---
 include/stdexec/__detail/__finally.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 7f5e315..99ca4be 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -194,17 +194,19 @@ namespace STDEXEC
           {
             using __tuple_t = __decayed_tuple<_Args...>;
             this->__result_.template emplace<__tuple_t>(static_cast<_Args&&>(__args)...);
-            (*__cleanup_callback_)(this);
-            STDEXEC::start(this->__final_opstate_);
           }
           STDEXEC_CATCH_ALL
           {
+            // The final sender runs also when the result of the initial sender cannot be stored.
             if constexpr (!__nothrow_decay_copyable<_Args...>)
             {
-              (*__cleanup_callback_)(this);
-              STDEXEC::set_error(static_cast<_Receiver&&>(this->__rcvr_), std::current_exception());
+              using __error_t = __tuple<set_error_t, std::exception_ptr>;
+              this->__result_.template emplace<__error_t>(STDEXEC::set_error,
+                                                          std::current_exception());
             }
           }
+          (*__cleanup_callback_)(this);
+          STDEXEC::start(this->__final_opstate_);
         }
       }
 
-- 
2.43.0


From 497134f22d2fdda7b6e8d336b327546729158da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 49/67] fix: upon_error, upon_stopped and stopped_as_optional
 advertise the completion behavior of both channels they merge

---
 include/stdexec/__detail/__queries.hpp        | 29 +++++++++++++++++++
 .../__detail/__stopped_as_optional.hpp        |  7 +++++
 include/stdexec/__detail/__upon_error.hpp     |  2 +-
 include/stdexec/__detail/__upon_stopped.hpp   |  7 +++++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__queries.hpp b/include/stdexec/__detail/__queries.hpp
index fde5fbc..0967846 100644
--- a/include/stdexec/__detail/__queries.hpp
+++ b/include/stdexec/__detail/__queries.hpp
@@ -29,6 +29,7 @@ import stdexec;
 #  include "__completion_behavior.hpp"
 #  include "__concepts.hpp"
 #  include "__query.hpp"
+#  include "__sender_concepts.hpp"
 
 #  include "__prologue.hpp"
 
@@ -82,6 +83,34 @@ namespace STDEXEC
 
   template <class _Sender>
   STDEXEC_HOST_DEVICE_DEDUCTION_GUIDE __sync_attrs(_Sender const &) -> __sync_attrs<_Sender>;
+
+  // The attributes of a sender adaptor that does not introduce asynchrony, and that turns the _From
+  // completions of its child into _To completions: a _To completion can then come from either of them.
+  template <class _From, class _To, class _Sender>
+  struct __sync_merge_attrs : __sync_attrs<_Sender>
+  {
+    using __sync_attrs<_Sender>::query;
+
+    template <class... _Env>
+    [[nodiscard]]
+    constexpr auto query(__get_completion_behavior_t<_To>, _Env const &...) const noexcept
+    {
+      if constexpr (__never_sends<_From, _Sender, _Env...>)
+      {
+        return __get_completion_behavior<_To, _Sender, _Env...>();
+      }
+      else if constexpr (__never_sends<_To, _Sender, _Env...>)
+      {
+        return __get_completion_behavior<_From, _Sender, _Env...>();
+      }
+      else
+      {
+        return __completion_behavior::__common(
+          __get_completion_behavior<_From, _Sender, _Env...>(),
+          __get_completion_behavior<_To, _Sender, _Env...>());
+      }
+    }
+  };
 }  // namespace STDEXEC
 
 #  include "__epilogue.hpp"
diff --git a/include/stdexec/__detail/__stopped_as_optional.hpp b/include/stdexec/__detail/__stopped_as_optional.hpp
index 7070f02..3a8fbd8 100644
--- a/include/stdexec/__detail/__stopped_as_optional.hpp
+++ b/include/stdexec/__detail/__stopped_as_optional.hpp
@@ -31,6 +31,7 @@ import stdexec;
 #  include "__completion_signatures_of.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
+#  include "__queries.hpp"
 #  include "__receivers.hpp"
 #  include "__sender_adaptor_closure.hpp"
 #  include "__senders.hpp"
@@ -62,6 +63,12 @@ namespace STDEXEC
 
     struct __stopped_as_optional_impl : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __sync_merge_attrs<set_stopped_t, set_value_t, _Child>{{__child}};
+      };
+
       static consteval auto __get_value_transform_fn() noexcept
       {
         return []<class... _Ts>()
diff --git a/include/stdexec/__detail/__upon_error.hpp b/include/stdexec/__detail/__upon_error.hpp
index 0fba0f3..573ac36 100644
--- a/include/stdexec/__detail/__upon_error.hpp
+++ b/include/stdexec/__detail/__upon_error.hpp
@@ -47,7 +47,7 @@ namespace STDEXEC
       static constexpr auto __get_attrs =
         []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
-        return __sync_attrs{__child};
+        return __sync_merge_attrs<set_error_t, set_value_t, _Child>{{__child}};
       };
 
       template <class _Fun>
diff --git a/include/stdexec/__detail/__upon_stopped.hpp b/include/stdexec/__detail/__upon_stopped.hpp
index a6b0eab..17facad 100644
--- a/include/stdexec/__detail/__upon_stopped.hpp
+++ b/include/stdexec/__detail/__upon_stopped.hpp
@@ -28,6 +28,7 @@ import stdexec;
 #  include "__basic_sender.hpp"
 #  include "__completion_signatures_of.hpp"
 #  include "__meta.hpp"
+#  include "__queries.hpp"
 #  include "__sender_adaptor_closure.hpp"
 #  include "__senders.hpp"  // IWYU pragma: keep for __well_formed_sender
 #  include "__transform_completion_signatures.hpp"
@@ -42,6 +43,12 @@ namespace STDEXEC
   {
     struct __upon_stopped_impl : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __sync_merge_attrs<set_stopped_t, set_value_t, _Child>{{__child}};
+      };
+
       template <class _Sender, class... _Env>
       static consteval auto __get_completion_signatures()
       {
-- 
2.43.0


From dc9fc650813b61fe18d5bc186064d72fa2129daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 50/67] fix: let_value, let_error and let_stopped advertise how
 and where their secondary senders complete

---
 include/stdexec/__detail/__let.hpp | 134 ++++++++++++++++++++++++++++-
 1 file changed, 131 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 5304f2e..3deedc8 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -507,6 +507,135 @@ namespace STDEXEC
     //   }
     // };
 
+    // The completion behaviors with which the secondary senders send _Tag. A secondary sender that
+    // never sends _Tag does not matter.
+    using __no_behavior_t =
+      __completion_behavior::__constant_t<__completion_behavior::__behavior{}>;
+
+    template <class _Tag, class _Fun, class... _Env2>
+    struct __result_behavior_fn
+    {
+      template <class... _Ts>
+      static consteval auto __impl() noexcept
+      {
+        using __sndr2_t =
+          __minvoke_or_q<__invoke_result_t, __not_a_sender<>, _Fun, __decay_t<_Ts>&...>;
+        if constexpr (__never_sends<_Tag, __sndr2_t, _Env2...>)
+        {
+          return __no_behavior_t{};
+        }
+        else
+        {
+          return STDEXEC::__get_completion_behavior<_Tag, __sndr2_t, _Env2...>();
+        }
+      }
+
+      template <class... _Ts>
+      using __f = decltype(__impl<_Ts...>());
+    };
+
+    // The attributes of a let_* sender. Where and how it completes depends on the secondary
+    // senders as well as on the predecessor.
+    template <class _LetTag, class _Fun, class _Child>
+    struct __attrs
+    {
+     private:
+      using __set_t = __t<_LetTag>;
+
+      template <class _Tag, class... _Env>
+      static consteval auto __result_behavior() noexcept
+      {
+        if constexpr (sender_in<_Child, __fwd_env_t<_Env>...>)
+        {
+          return __gather_completions_t<
+            __set_t,
+            __completion_signatures_of_t<_Child, __fwd_env_t<_Env>...>,
+            __result_behavior_fn<_Tag, _Fun, __result_env_t<__set_t, _Child, _Env>...>,
+            __mbind_front_q<__call_result_t, __completion_behavior::__common_t, __no_behavior_t>>{};
+        }
+        else
+        {
+          return __completion_behavior::__unknown;
+        }
+      }
+
+      template <class _Tag, class... _Env>
+      static consteval auto __child_behavior() noexcept
+      {
+        if constexpr (__never_sends<_Tag, _Child, __fwd_env_t<_Env>...>)
+        {
+          return __no_behavior_t{};
+        }
+        else
+        {
+          return STDEXEC::__get_completion_behavior<_Tag, _Child, __fwd_env_t<_Env>...>();
+        }
+      }
+
+      // Whether the secondary senders send _Tag, if at all, from where they are started.
+      template <class _Tag, class... _Env>
+      static consteval bool __results_are_sync() noexcept
+      {
+        constexpr auto __behavior = __result_behavior<_Tag, _Env...>();
+        return __behavior == __no_behavior_t{}
+            || __behavior == __completion_behavior::__inline_completion;
+      }
+
+     public:
+      template <class _Tag, class... _Env>
+      [[nodiscard]]
+      constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
+      {
+        // A completion comes from the predecessor, or from a secondary sender (or an exception)
+        // after the predecessor completed with __set_t.
+        using __behavior_t = __call_result_t<__completion_behavior::__common_t,
+                                             decltype(__child_behavior<_Tag, _Env...>()),
+                                             decltype(__child_behavior<__set_t, _Env...>()),
+                                             decltype(__result_behavior<_Tag, _Env...>())>;
+        if constexpr (__behavior_t{} == __no_behavior_t{})
+        {
+          return __completion_behavior::__unknown;
+        }
+        else
+        {
+          return __behavior_t{};
+        }
+      }
+
+      template <__completion_tag _Tag, class... _Env>
+        requires(__results_are_sync<_Tag, _Env...>())
+             && __queryable_with<env_of_t<_Child>, get_completion_scheduler_t<_Tag>, _Env const &...>
+      [[nodiscard]]
+      constexpr auto query(get_completion_scheduler_t<_Tag>, _Env const &...__env) const noexcept
+        -> __query_result_t<env_of_t<_Child>, get_completion_scheduler_t<_Tag>, _Env const &...>
+      {
+        return __query<get_completion_scheduler_t<_Tag>>()(STDEXEC::get_env(__child_), __env...);
+      }
+
+      template <__completion_tag _Tag, class... _Env>
+        requires(__results_are_sync<_Tag, _Env...>())
+             && __queryable_with<env_of_t<_Child>, get_completion_domain_t<_Tag>, _Env const &...>
+      [[nodiscard]]
+      constexpr auto query(get_completion_domain_t<_Tag>, _Env const &...) const noexcept
+        -> __query_result_t<env_of_t<_Child>, get_completion_domain_t<_Tag>, _Env const &...>
+      {
+        return {};
+      }
+
+      template <__forwarding_query _Query, class... _Args>
+        requires(!__completion_query<_Query>)
+             && __queryable_with<env_of_t<_Child>, _Query, _Args...>
+      [[nodiscard]]
+      constexpr auto query(_Query, _Args&&...__args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Child>, _Query, _Args...>)
+          -> __query_result_t<env_of_t<_Child>, _Query, _Args...>
+      {
+        return __query<_Query>()(STDEXEC::get_env(__child_), static_cast<_Args&&>(__args)...);
+      }
+
+      _Child const & __child_;
+    };
+
     //! Implementation of the `let_*_t` types, where `_SetTag` is, e.g., `set_value_t` for `let_value`.
     template <class _LetTag>
     struct __let_t
@@ -595,10 +724,9 @@ namespace STDEXEC
 
      public:
       static constexpr auto __get_attrs =
-        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept -> decltype(auto)
+        []<class _Fun, class _Child>(__ignore, _Fun const &, _Child const & __child) noexcept
       {
-        // TODO(ericniebler): this needs a proper implementation
-        return __fwd_env(STDEXEC::get_env(__child));
+        return __attrs<_LetTag, _Fun, _Child>{__child};
       };
 
       template <class _CvSender, class... _Env>
-- 
2.43.0


From beebb1c7760b8967871c4e6d419b9e1304ae73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 51/67] fix: unless_stop_requested advertises that it may
 complete with stopped inline

---
 include/exec/unless_stop_requested.hpp | 33 ++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/exec/unless_stop_requested.hpp b/include/exec/unless_stop_requested.hpp
index 0ebcc7f..1f31ec9 100644
--- a/include/exec/unless_stop_requested.hpp
+++ b/include/exec/unless_stop_requested.hpp
@@ -87,8 +87,41 @@ namespace experimental::execution
       }
     };
 
+    // A stop request that has already been made is answered inside start().
+    template <class _Child>
+    struct __attrs : __sync_attrs<_Child>
+    {
+      using __sync_attrs<_Child>::query;
+
+      template <class... _Env>
+      [[nodiscard]]
+      constexpr auto query(__get_completion_behavior_t<set_stopped_t>, _Env const &...) const noexcept
+      {
+        constexpr auto __behavior = __get_completion_behavior<set_stopped_t, _Child, _Env...>();
+        if constexpr ((__unstoppable_env<_Env> || ...))
+        {
+          return __behavior;
+        }
+        else if constexpr (__never_sends<set_stopped_t, _Child, _Env...>)
+        {
+          return __completion_behavior::__inline_completion;
+        }
+        else
+        {
+          return __completion_behavior::__common(__behavior,
+                                                 __completion_behavior::__inline_completion);
+        }
+      }
+    };
+
     struct __impls : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __attrs<_Child>{{__child}};
+      };
+
       template <class _Self, class _Env>
       static consteval auto __get_completion_signatures()
       {
-- 
2.43.0


From 65c586ab5264fc585b4a226e6a3b19e274b03180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 52/67] fix: continues_on an inline scheduler advertises the
 scheduler on which its child completes

---
 include/stdexec/__detail/__continues_on.hpp | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__continues_on.hpp b/include/stdexec/__detail/__continues_on.hpp
index 871bbbc..c0db575 100644
--- a/include/stdexec/__detail/__continues_on.hpp
+++ b/include/stdexec/__detail/__continues_on.hpp
@@ -156,6 +156,15 @@ namespace STDEXEC
         return false;
       }
 
+      //! Whether the scheduler's sender sends its value completions from where it was started,
+      //! that is, from where the original sender completed.
+      template <class _SetTag, class... _Env>
+      static constexpr bool __stays_where_it_is =
+        __same_as<_SetTag, set_value_t>
+        && __completes_inline<set_value_t,
+                              env_of_t<schedule_result_t<_Scheduler>>,
+                              __fwd_env_t<_Env>...>;
+
       _Scheduler        __sch_;
       env_of_t<_Sender> __attrs_;
 
@@ -181,10 +190,14 @@ namespace STDEXEC
       //! Otherwise, if the scheduler's sender never completes with @c _SetTag, then a
       //! @c _SetTag completion can only come from the original sender, so return the
       //! original sender's completion scheduler.
+      //!
+      //! A scheduler that completes inline does not move the execution anywhere: the value
+      //! completions then still come from where the original sender completed.
       template <class _SetTag, class... _Env>
         requires(__same_as<_SetTag, set_value_t>
                  || __never_sends<_SetTag, _Sender, __fwd_env_t<_Env>...>)
              && (!__has_decay_copy_errors<_SetTag, _Env...>())
+             && (!__stays_where_it_is<_SetTag, _Env...>)
       [[nodiscard]]
       constexpr auto
       query(get_completion_scheduler_t<_SetTag>, _Env const &... __env) const noexcept
@@ -195,7 +208,8 @@ namespace STDEXEC
 
       //! @overload
       template <class _SetTag, class... _Env>
-        requires __never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>
+        requires __stays_where_it_is<_SetTag, _Env...>
+              || __never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>
       [[nodiscard]]
       constexpr auto
       query(get_completion_scheduler_t<_SetTag>, _Env const &... __env) const noexcept
@@ -222,6 +236,7 @@ namespace STDEXEC
       //! results can throw, so error completions can also come from the sender's value
       //! completions.
       template <__same_as<set_value_t> _SetTag, class... _Env>
+        requires(!__stays_where_it_is<_SetTag, _Env...>)
       [[nodiscard]]
       constexpr auto
       query(get_completion_domain_t<_SetTag>, _Env const &...) const noexcept -> __unless_one_of_t<
@@ -231,6 +246,18 @@ namespace STDEXEC
         return {};
       }
 
+      //! @overload
+      template <__same_as<set_value_t> _SetTag, class... _Env>
+        requires __stays_where_it_is<_SetTag, _Env...>
+      [[nodiscard]]
+      constexpr auto
+      query(get_completion_domain_t<_SetTag>, _Env const &...) const noexcept -> __unless_one_of_t<
+        __completion_domain_of_t<_SetTag, _Sender, __fwd_env_t<_Env>...>,
+        indeterminate_domain<>>
+      {
+        return {};
+      }
+
       //! @overload
       template <__one_of<set_error_t, set_stopped_t> _SetTag, class... _Env>
         requires(!__has_decay_copy_errors<_SetTag, _Env...>())
-- 
2.43.0


From e4637424d3bde255b0c66708066fda2d5ec72216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 53/67] fix: affine advertises how its adapted child completes

---
 include/stdexec/__detail/__affine.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..affe314 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -47,18 +47,18 @@ namespace STDEXEC
     // For a given completion tag, a sender is "already affine" if either it doesn't send
     // that tag, or if its completion behavior for that tag is already "inline" or
     // "__asynchronous_affine".
-    template <class _Tag, class _Sender, class _Env>
-    concept __already_affine = __never_sends<_Tag, _Sender, _Env>
+    template <class _Tag, class _Sender, class... _Env>
+    concept __already_affine = __never_sends<_Tag, _Sender, _Env...>
                             || __completion_behavior::__is_affine(
-                                 __get_completion_behavior<_Tag, _Sender, _Env>());
+                                 __get_completion_behavior<_Tag, _Sender, _Env...>());
 
     // For the purpose of the affine algorithm, a sender that is "already affine" for
     // all three of the standard completion tags does not need to be adapted to become
     // affine.
-    template <class _Sender, class _Env>
-    concept __is_affine = __already_affine<set_value_t, _Sender, _Env>
-                       && __already_affine<set_error_t, _Sender, _Env>
-                       && __already_affine<set_stopped_t, _Sender, _Env>;
+    template <class _Sender, class... _Env>
+    concept __is_affine = __already_affine<set_value_t, _Sender, _Env...>
+                       && __already_affine<set_error_t, _Sender, _Env...>
+                       && __already_affine<set_stopped_t, _Sender, _Env...>;
   }  // namespace __affine
 
   struct affine_t
@@ -148,15 +148,17 @@ namespace STDEXEC
       {
         constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env...>();
 
-        // When the child sender completes inline, we can return "inline" here instead of
-        // "__asynchronous_affine".
-        if constexpr (__behavior == __completion_behavior::__inline_completion)
+        // A child sender that is already affine is used as it is. Any other is sent back to the
+        // starting scheduler whatever it completes with, which may or may not happen inline.
+        if constexpr (__is_affine<_Sender, _Env...>
+                      && __completion_behavior::__is_affine(__behavior))
         {
-          return __completion_behavior::__inline_completion;
+          return __behavior;
         }
         else
         {
-          return __completion_behavior::__asynchronous_affine;
+          return __completion_behavior::__asynchronous_affine
+               | __completion_behavior::__inline_completion;
         }
       }
 
-- 
2.43.0


From c425184fbbb95d4865776f6a8ea56823ad4a32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 54/67] fix: exec::task reschedules a sender that is affine for
 values only

---
 include/exec/task.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index de3d1a7..213d710 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -616,9 +616,7 @@ namespace experimental::execution
           requires __start_scheduler_provider<_Context>
         auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
         {
-          if constexpr (__completes_where_it_starts<set_value_t,
-                                                    env_of_t<_CvSender>,
-                                                    __promise_context_t&>)
+          if constexpr (__affine::__is_affine<_CvSender, __promise_context_t&>)
           {
             return STDEXEC::as_awaitable(static_cast<_CvSender&&>(__sndr), *this);
           }
-- 
2.43.0


From b8f34256a255bbe4aee27c210e2168c5266bd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 55/67] fix: finally advertises the decayed errors which it
 delivers

---
 include/stdexec/__detail/__finally.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 99ca4be..549e5bb 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -346,10 +346,11 @@ namespace STDEXEC
           {
             // The finally sender's completion signatures are ...
             return STDEXEC::__concat_completion_signatures(
-              // ... the initial sender's completions with value types decayed ...
+              // ... the initial sender's completions with value and error types decayed ...
               STDEXEC::__transform_completion_signatures(
                 __initial_completions,
-                __decay_arguments<set_value_t, __finally_t>()),
+                __decay_arguments<set_value_t, __finally_t>(),
+                __decay_arguments<set_error_t, __finally_t>()),
               // ... and the final sender's error and stopped completions ...
               STDEXEC::__transform_completion_signatures(__final_completions,
                                                          __ignore_completion()));
-- 
2.43.0


From 29130e4ef2320dc242ebed96612aa3e5700c8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 56/67] fix: awaiting a sender survives an error whose copy
 throws

---
 include/stdexec/__detail/__as_awaitable.hpp | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/stdexec/__detail/__as_awaitable.hpp b/include/stdexec/__detail/__as_awaitable.hpp
index 304118b..683eb80 100644
--- a/include/stdexec/__detail/__as_awaitable.hpp
+++ b/include/stdexec/__detail/__as_awaitable.hpp
@@ -204,14 +204,22 @@ namespace STDEXEC
       template <class _Error>
       void set_error(_Error&& __err) noexcept
       {
-        if constexpr (__decays_to<_Error, std::exception_ptr>)
-          __awaiter_.__result_.template emplace<1>(static_cast<_Error&&>(__err));
-        else if constexpr (__decays_to<_Error, std::error_code>)
-          __awaiter_.__result_.template emplace<1>(
-            std::make_exception_ptr(std::system_error(__err)));
-        else
-          __awaiter_.__result_.template emplace<1>(
-            std::make_exception_ptr(static_cast<_Error&&>(__err)));
+        // Constructing the exception object may throw.
+        STDEXEC_TRY
+        {
+          if constexpr (__decays_to<_Error, std::exception_ptr>)
+            __awaiter_.__result_.template emplace<1>(static_cast<_Error&&>(__err));
+          else if constexpr (__decays_to<_Error, std::error_code>)
+            __awaiter_.__result_.template emplace<1>(
+              std::make_exception_ptr(std::system_error(__err)));
+          else
+            __awaiter_.__result_.template emplace<1>(
+              std::make_exception_ptr(static_cast<_Error&&>(__err)));
+        }
+        STDEXEC_CATCH_ALL
+        {
+          __awaiter_.__result_.template emplace<1>(std::current_exception());
+        }
       }
 
       __sender_awaiter_base<_Value, true>& __awaiter_;
-- 
2.43.0


From 1fcf5d48ede2154245fdf54d60168cc70651c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 57/67] fix: bulk on a task_scheduler around an inline
 scheduler terminates

---
 include/stdexec/__detail/__task_scheduler.hpp | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 6c5575d..50d35d5 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -43,6 +43,7 @@ import stdexec;
 #  include "__transform_completion_signatures.hpp"
 #  include "__typeinfo.hpp"
 #  include "__variant.hpp"  // IWYU pragma: keep for __variant
+#  include "__write_env.hpp"
 
 #  if !STDEXEC_USE_MODULES()
 #    include <cstddef>
@@ -821,10 +822,13 @@ namespace STDEXEC
                           parallel_scheduler_replacement::bulk_item_receiver_proxy& __rcvr_proxy,
                           std::span<std::byte> __storage) noexcept
     {
-      auto __sndr = STDEXEC::bulk_chunked(__task::__just_with_scheduler{__sch_},
-                                          par,
-                                          __count,
-                                          __task::__bulk_chunked_fn{__rcvr_proxy});
+      // The bulk operation starts on the wrapped scheduler.
+      auto __sndr = STDEXEC::write_env(
+        STDEXEC::bulk_chunked(__task::__just_with_scheduler{__sch_},
+                              par,
+                              __count,
+                              __task::__bulk_chunked_fn{__rcvr_proxy}),
+        STDEXEC::prop{get_start_scheduler, __sch_});
       __schedule<__task::__env_t<true>>(__rcvr_proxy, std::move(__sndr), __storage);
     }
 
@@ -833,10 +837,13 @@ namespace STDEXEC
                             parallel_scheduler_replacement::bulk_item_receiver_proxy& __rcvr_proxy,
                             std::span<std::byte> __storage) noexcept
     {
-      auto __sndr = STDEXEC::bulk_unchunked(__task::__just_with_scheduler{__sch_},
-                                            par,
-                                            __count,
-                                            __task::__bulk_unchunked_fn{__rcvr_proxy});
+      // The bulk operation starts on the wrapped scheduler.
+      auto __sndr = STDEXEC::write_env(
+        STDEXEC::bulk_unchunked(__task::__just_with_scheduler{__sch_},
+                                par,
+                                __count,
+                                __task::__bulk_unchunked_fn{__rcvr_proxy}),
+        STDEXEC::prop{get_start_scheduler, __sch_});
       __schedule<__task::__env_t<true>>(__rcvr_proxy, std::move(__sndr), __storage);
     }
 
-- 
2.43.0


From 368dee95bb765b9368debfb62d9bc833a20d936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:55 +0000
Subject: [PATCH 58/67] fix: just delivers its own copies as non-const values
 when connected from an lvalue

---
 include/stdexec/__detail/__just.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__just.hpp b/include/stdexec/__detail/__just.hpp
index 56df532..eae4f2e 100644
--- a/include/stdexec/__detail/__just.hpp
+++ b/include/stdexec/__detail/__just.hpp
@@ -86,9 +86,9 @@ namespace STDEXEC
           __nothrow_decay_copyable<_Sender>)
       {
         auto& [__tag, __data] = __sndr;
-        return __opstate<__set_tag_t, decltype(__data), _Receiver>{static_cast<_Receiver&&>(__rcvr),
-                                                                   STDEXEC::__forward_like<_Sender>(
-                                                                     __data)};
+        return __opstate<__set_tag_t, __decay_t<decltype(__data)>, _Receiver>{
+          static_cast<_Receiver&&>(__rcvr),
+          STDEXEC::__forward_like<_Sender>(__data)};
       };
     };
   }  // namespace __just
-- 
2.43.0


From b37c0dea2675d8eea6b686df79834883190f1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:34 +0000
Subject: [PATCH 59/67] fix: iterate keeps the range it iterates over in its
 operation

---
 include/exec/sequence/iterate.hpp | 39 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/exec/sequence/iterate.hpp b/include/exec/sequence/iterate.hpp
index a85f37c..658f4a9 100644
--- a/include/exec/sequence/iterate.hpp
+++ b/include/exec/sequence/iterate.hpp
@@ -127,18 +127,33 @@ namespace experimental::execution
       __operation_base<_Iterator, _Sentinel, _Receiver>* __op_;
     };
 
-    template <class _Iterator, class _Sentinel, class _Receiver>
-    struct __operation final : __operation_base<_Iterator, _Sentinel, _Receiver>
+    // Holds the range for as long as the operation iterates over it.
+    template <class _Range>
+    struct __range_base
+    {
+      STDEXEC_ATTRIBUTE(no_unique_address) _Range __range_;
+    };
+
+    template <class _Range, class _Receiver>
+    struct __operation final
+      : private __range_base<_Range>
+      , __operation_base<std::ranges::iterator_t<_Range>,
+                         std::ranges::sentinel_t<_Range>,
+                         _Receiver>
     {
+      using _Iterator         = std::ranges::iterator_t<_Range>;
+      using _Sentinel         = std::ranges::sentinel_t<_Range>;
       using __item_sender_t   = __result_of<exec::sequence,
                                             schedule_result_t<trampoline_scheduler>,
                                             __sender<_Iterator, _Sentinel>>;
       using __next_receiver_t = __next_receiver<_Iterator, _Sentinel, _Receiver>;
       using __next_sender_t   = next_sender_of_t<_Receiver, __item_sender_t>;
 
-      constexpr explicit __operation(_Iterator __iterator, _Sentinel __sentinel, _Receiver&& __rcvr)
-        : __operation_base<_Iterator, _Sentinel, _Receiver>{static_cast<_Iterator&&>(__iterator),
-                                                            static_cast<_Sentinel&&>(__sentinel),
+      template <class _CvRange>
+      constexpr explicit __operation(_CvRange&& __range, _Receiver&& __rcvr)
+        : __range_base<_Range>{static_cast<_CvRange&&>(__range)}
+        , __operation_base<_Iterator, _Sentinel, _Receiver>{std::ranges::begin(this->__range_),
+                                                            std::ranges::end(this->__range_),
                                                             static_cast<_Receiver&&>(__rcvr)}
       {}
 
@@ -178,11 +193,11 @@ namespace experimental::execution
     struct __subscribe_fn
     {
       template <class _Range>
-      constexpr auto operator()(__ignore, _Range&& __range) noexcept
+      constexpr auto operator()(__ignore, _Range&& __range)
+        noexcept(__nothrow_decay_copyable<_Range>) -> __operation<__decay_t<_Range>, _Receiver>
       {
-        return __operation{std::ranges::begin(static_cast<_Range&&>(__range)),
-                           std::ranges::end(static_cast<_Range&&>(__range)),
-                           static_cast<_Receiver&&>(__rcvr_)};
+        return __operation<__decay_t<_Range>, _Receiver>{static_cast<_Range&&>(__range),
+                                                         static_cast<_Receiver&&>(__rcvr_)};
       }
 
       _Receiver __rcvr_;
@@ -207,11 +222,11 @@ namespace experimental::execution
       template <class _Sequence>
       using __item_sender_t = __result_of<exec::sequence,
                                           schedule_result_t<trampoline_scheduler&>,
-                                          __sender_t<__data_of<_Sequence>>>;
+                                          __sender_t<__decay_t<__data_of<_Sequence>>>>;
 
       template <class _Sequence, class _Receiver>
-      using _NextReceiver = __next_receiver<std::ranges::iterator_t<__data_of<_Sequence>>,
-                                            std::ranges::sentinel_t<__data_of<_Sequence>>,
+      using _NextReceiver = __next_receiver<std::ranges::iterator_t<__decay_t<__data_of<_Sequence>>>,
+                                            std::ranges::sentinel_t<__decay_t<__data_of<_Sequence>>>,
                                             _Receiver>;
 
       template <class _Sequence, class _Receiver>
-- 
2.43.0


From c7b30e18ef0153d0af4ef1e780161d35b2649ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:34 +0000
Subject: [PATCH 60/67] fix: bulk on a task_scheduler can be connected from an
 lvalue

---
 include/stdexec/__detail/__task_scheduler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 50d35d5..7aa4196 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -222,7 +222,8 @@ namespace STDEXEC
       else
       {
         auto __sch = get_completion_scheduler<set_value_t>(get_env(__sndr), __env);
-        return __task::__bulk_sender<_Sndr>{static_cast<_Sndr&&>(__sndr), std::move(__sch)};
+        return __task::__bulk_sender<__decay_t<_Sndr>>{static_cast<_Sndr&&>(__sndr),
+                                                       std::move(__sch)};
       }
     }
   };
-- 
2.43.0


From 8b4f65789ead41df977fcf0b9202800bfd37729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:34 +0000
Subject: [PATCH 61/67] fix: attributes of let, upon, affine and
 unless_stop_requested accept abstract environments

---
 include/exec/unless_stop_requested.hpp |  4 ++--
 include/stdexec/__detail/__affine.hpp  |  4 ++--
 include/stdexec/__detail/__let.hpp     | 10 +++++-----
 include/stdexec/__detail/__queries.hpp | 12 ++++++------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/exec/unless_stop_requested.hpp b/include/exec/unless_stop_requested.hpp
index 1f31ec9..411fe68 100644
--- a/include/exec/unless_stop_requested.hpp
+++ b/include/exec/unless_stop_requested.hpp
@@ -97,12 +97,12 @@ namespace experimental::execution
       [[nodiscard]]
       constexpr auto query(__get_completion_behavior_t<set_stopped_t>, _Env const &...) const noexcept
       {
-        constexpr auto __behavior = __get_completion_behavior<set_stopped_t, _Child, _Env...>();
+        constexpr auto __behavior = __get_completion_behavior<set_stopped_t, _Child, _Env const &...>();
         if constexpr ((__unstoppable_env<_Env> || ...))
         {
           return __behavior;
         }
-        else if constexpr (__never_sends<set_stopped_t, _Child, _Env...>)
+        else if constexpr (__never_sends<set_stopped_t, _Child, _Env const &...>)
         {
           return __completion_behavior::__inline_completion;
         }
diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index affe314..245cf66 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -146,11 +146,11 @@ namespace STDEXEC
         requires __callable<__get_completion_behavior_t<_Tag>, env_of_t<_Sender>, _Env const &...>
       constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
       {
-        constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env...>();
+        constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env const &...>();
 
         // A child sender that is already affine is used as it is. Any other is sent back to the
         // starting scheduler whatever it completes with, which may or may not happen inline.
-        if constexpr (__is_affine<_Sender, _Env...>
+        if constexpr (__is_affine<_Sender, _Env const &...>
                       && __completion_behavior::__is_affine(__behavior))
         {
           return __behavior;
diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 3deedc8..388316e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -589,9 +589,9 @@ namespace STDEXEC
         // A completion comes from the predecessor, or from a secondary sender (or an exception)
         // after the predecessor completed with __set_t.
         using __behavior_t = __call_result_t<__completion_behavior::__common_t,
-                                             decltype(__child_behavior<_Tag, _Env...>()),
-                                             decltype(__child_behavior<__set_t, _Env...>()),
-                                             decltype(__result_behavior<_Tag, _Env...>())>;
+                                             decltype(__child_behavior<_Tag, _Env const &...>()),
+                                             decltype(__child_behavior<__set_t, _Env const &...>()),
+                                             decltype(__result_behavior<_Tag, _Env const &...>())>;
         if constexpr (__behavior_t{} == __no_behavior_t{})
         {
           return __completion_behavior::__unknown;
@@ -603,7 +603,7 @@ namespace STDEXEC
       }
 
       template <__completion_tag _Tag, class... _Env>
-        requires(__results_are_sync<_Tag, _Env...>())
+        requires(__results_are_sync<_Tag, _Env const &...>())
              && __queryable_with<env_of_t<_Child>, get_completion_scheduler_t<_Tag>, _Env const &...>
       [[nodiscard]]
       constexpr auto query(get_completion_scheduler_t<_Tag>, _Env const &...__env) const noexcept
@@ -613,7 +613,7 @@ namespace STDEXEC
       }
 
       template <__completion_tag _Tag, class... _Env>
-        requires(__results_are_sync<_Tag, _Env...>())
+        requires(__results_are_sync<_Tag, _Env const &...>())
              && __queryable_with<env_of_t<_Child>, get_completion_domain_t<_Tag>, _Env const &...>
       [[nodiscard]]
       constexpr auto query(get_completion_domain_t<_Tag>, _Env const &...) const noexcept
diff --git a/include/stdexec/__detail/__queries.hpp b/include/stdexec/__detail/__queries.hpp
index 0967846..a86e20d 100644
--- a/include/stdexec/__detail/__queries.hpp
+++ b/include/stdexec/__detail/__queries.hpp
@@ -95,19 +95,19 @@ namespace STDEXEC
     [[nodiscard]]
     constexpr auto query(__get_completion_behavior_t<_To>, _Env const &...) const noexcept
     {
-      if constexpr (__never_sends<_From, _Sender, _Env...>)
+      if constexpr (__never_sends<_From, _Sender, _Env const &...>)
       {
-        return __get_completion_behavior<_To, _Sender, _Env...>();
+        return __get_completion_behavior<_To, _Sender, _Env const &...>();
       }
-      else if constexpr (__never_sends<_To, _Sender, _Env...>)
+      else if constexpr (__never_sends<_To, _Sender, _Env const &...>)
       {
-        return __get_completion_behavior<_From, _Sender, _Env...>();
+        return __get_completion_behavior<_From, _Sender, _Env const &...>();
       }
       else
       {
         return __completion_behavior::__common(
-          __get_completion_behavior<_From, _Sender, _Env...>(),
-          __get_completion_behavior<_To, _Sender, _Env...>());
+          __get_completion_behavior<_From, _Sender, _Env const &...>(),
+          __get_completion_behavior<_To, _Sender, _Env const &...>());
       }
     }
   };
-- 
2.43.0


From f01aa201678ce9733557138379b7ee8347cb5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:13 +0000
Subject: [PATCH 62/67] fix: exec: subscribing to transform_each or merge may
 throw what its child throws

---
 include/exec/sequence/merge.hpp          | 5 ++++-
 include/exec/sequence/transform_each.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/exec/sequence/merge.hpp b/include/exec/sequence/merge.hpp
index ddf6fa0..9918a9b 100644
--- a/include/exec/sequence/merge.hpp
+++ b/include/exec/sequence/merge.hpp
@@ -130,7 +130,10 @@ namespace experimental::execution
       {
         template <class _Receiver, class... _Sequences>
         auto operator()(_Receiver& __rcvr, __ignore, __ignore, _Sequences... __sequences)
-          noexcept(__nothrow_decay_copyable<_Sequences...>) -> __operation<_Receiver, _Sequences...>
+          noexcept(__nothrow_decay_copyable<_Sequences...>
+                   && __nothrow_connectable<__combine::result_sender_t<_Receiver, _Sequences...>,
+                                            __result_receiver<_Receiver>>)
+            -> __operation<_Receiver, _Sequences...>
         {
           return __operation<_Receiver, _Sequences...>{static_cast<_Receiver&&>(__rcvr),
                                                        static_cast<_Sequences&&>(__sequences)...};
diff --git a/include/exec/sequence/transform_each.hpp b/include/exec/sequence/transform_each.hpp
index 74a5d49..a5a1bf9 100644
--- a/include/exec/sequence/transform_each.hpp
+++ b/include/exec/sequence/transform_each.hpp
@@ -104,6 +104,8 @@ namespace experimental::execution
     struct __operation : __operation_base<_Receiver, _Adaptor>
     {
       __operation(_Sender&& __sndr, _Receiver __rcvr, _Adaptor __adaptor)
+        noexcept(__nothrow_move_constructible<_Adaptor>
+                 && __nothrow_subscribable<_Sender, __receiver<_Receiver, _Adaptor>>)
         : __operation_base<_Receiver, _Adaptor>{static_cast<_Receiver&&>(__rcvr),
                                                 static_cast<_Adaptor&&>(__adaptor)}
         , __opstate_{
@@ -125,7 +127,10 @@ namespace experimental::execution
 
       template <class _Adaptor, class _Sequence>
       auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence)
-        noexcept(__nothrow_decay_copyable<_Adaptor, _Sequence>)
+        noexcept(__nothrow_constructible_from<__operation<_Sequence, _Receiver, _Adaptor>,
+                                              _Sequence,
+                                              _Receiver,
+                                              _Adaptor>)
           -> __operation<_Sequence, _Receiver, _Adaptor>
       {
         return {static_cast<_Sequence&&>(__sequence),
-- 
2.43.0


From 70ada1c631ad2d123a3a28b9963745aee32bb86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:13 +0000
Subject: [PATCH 63/67] fix: static_thread_pool: subscribing to schedule_all
 allocates and may throw

---
 include/exec/static_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index e1520bf..58fa582 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1805,14 +1805,14 @@ namespace experimental::execution
         {}
 
         template <exec::sequence_receiver_of<item_types> Receiver>
-        auto subscribe(Receiver rcvr) && noexcept -> opstate<Range, Receiver>
+        auto subscribe(Receiver rcvr) && -> opstate<Range, Receiver>
         {
           return opstate<Range, Receiver>{std::move(range_), *pool_, std::move(rcvr)};
         }
 
         template <exec::sequence_receiver_of<item_types> Receiver>
           requires __decay_copyable<Range const &>
-        auto subscribe(Receiver rcvr) const & noexcept -> opstate<Range, Receiver>
+        auto subscribe(Receiver rcvr) const & -> opstate<Range, Receiver>
         {
           return opstate<Range, Receiver>{range_, *pool_, std::move(rcvr)};
         }
-- 
2.43.0


From 31159dab3607a4dfeec61ed701527d05039de598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:13 +0000
Subject: [PATCH 64/67] fix: task: await_transform connects the awaited sender
 and may throw

---
 include/exec/task.hpp               | 6 +++---
 include/stdexec/__detail/__task.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 213d710..0c67c12 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -614,7 +614,7 @@ namespace experimental::execution
 #ifndef __clang_analyzer__
         template <sender _CvSender>
           requires __start_scheduler_provider<_Context>
-        auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
+        auto await_transform(_CvSender&& __sndr) -> decltype(auto)
         {
           if constexpr (__affine::__is_affine<_CvSender, __promise_context_t&>)
           {
@@ -640,13 +640,13 @@ namespace experimental::execution
 #endif
 
         template <__sender_adaptor_closure_for<__just_void<__scheduler_t>> _Closure>
-        auto await_transform(_Closure&& __closure) noexcept -> decltype(auto)
+        auto await_transform(_Closure&& __closure) -> decltype(auto)
         {
           return await_transform(static_cast<_Closure&&>(__closure)(__just_void<__scheduler_t>()));
         }
 
         template <class _Awaitable>
-        constexpr auto await_transform(_Awaitable&& __awaitable) noexcept -> decltype(auto)
+        constexpr auto await_transform(_Awaitable&& __awaitable) -> decltype(auto)
         {
           return with_awaitable_senders<__promise>::await_transform(
             static_cast<_Awaitable&&>(__awaitable));
diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 66e1b43..578bbfd 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -718,7 +718,7 @@ namespace STDEXEC
     }
 
     template <sender _Sender>
-    constexpr auto await_transform(_Sender&& __sndr) noexcept
+    constexpr auto await_transform(_Sender&& __sndr)
     {
       using __schedule_sndr_t = schedule_result_t<start_scheduler_type>;
       if constexpr (__completes_where_it_starts<set_value_t, env_of_t<__schedule_sndr_t>, __env>)
-- 
2.43.0


From 2dc0d953e5f94ea8bc1bca64f76c68365e1bbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:13 +0000
Subject: [PATCH 65/67] fix: __any_allocator allocates suitably aligned memory

---
 include/stdexec/__detail/__any_allocator.hpp | 71 ++++++++++++++++----
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/include/stdexec/__detail/__any_allocator.hpp b/include/stdexec/__detail/__any_allocator.hpp
index c0ff20e..6dd1bd7 100644
--- a/include/stdexec/__detail/__any_allocator.hpp
+++ b/include/stdexec/__detail/__any_allocator.hpp
@@ -31,6 +31,10 @@ import stdexec;
 #  include "__memory.hpp"
 #  include "__typeinfo.hpp"
 
+#  include <cstddef>
+#  include <cstring>
+#  include <memory>
+
 #  include "__prologue.hpp"
 
 STDEXEC_PRAGMA_IGNORE_GNU("-Warray-bounds")
@@ -39,30 +43,37 @@ namespace STDEXEC
 {
   namespace __detail
   {
+    // Memory is requested from the erased allocator in blocks of this type, so that it is aligned
+    // for any type that has no extended alignment.
+    struct alignas(__STDCPP_DEFAULT_NEW_ALIGNMENT__) __any_alloc_block
+    {
+      std::byte __storage_[__STDCPP_DEFAULT_NEW_ALIGNMENT__];
+    };
+
     template <class _Base>
-    struct __byte_allocator;
+    struct __block_allocator;
 
     template <class _Base>
-    using __byte_allocator_interface_t =
-      __any::__interface_base<__byte_allocator,
+    using __block_allocator_interface_t =
+      __any::__interface_base<__block_allocator,
                               _Base,
                               __any::__extends<__any::__icopyable, __any::__iequality_comparable>>;
 
     // NOLINTBEGIN(modernize-use-override)
     template <class _Base>
-    struct __byte_allocator : __byte_allocator_interface_t<_Base>
+    struct __block_allocator : __block_allocator_interface_t<_Base>
     {
-      using __byte_allocator_interface_t<_Base>::__interface_base::__interface_base;
+      using __block_allocator_interface_t<_Base>::__interface_base::__interface_base;
 
       [[nodiscard]]
-      constexpr virtual auto allocate(size_t __n) -> std::byte*
+      constexpr virtual auto allocate(size_t __n) -> __any_alloc_block*
       {
         return __any::__value(*this).allocate(__n);
       }
 
-      constexpr virtual void deallocate(std::byte* __byte, size_t __n) noexcept
+      constexpr virtual void deallocate(__any_alloc_block* __ptr, size_t __n) noexcept
       {
-        __any::__value(*this).deallocate(__byte, __n);
+        __any::__value(*this).deallocate(__ptr, __n);
       }
     };
     // NOLINTEND(modernize-use-override)
@@ -89,7 +100,7 @@ namespace STDEXEC
       static_assert(__same_as<_Ty, __value_t>,
                     "__any_allocator<T> must be constructed with an allocator of the same value "
                     "type");
-      __alloc_.emplace(STDEXEC::__rebind_allocator<std::byte>(__alloc));
+      __alloc_.emplace(STDEXEC::__rebind_allocator<__detail::__any_alloc_block>(__alloc));
     }
 
     template <__not_same_as<_Ty> _Uy>
@@ -112,20 +123,54 @@ namespace STDEXEC
     [[nodiscard]]
     constexpr auto allocate(size_t __n) -> _Ty*
     {
-      void* __void_ptr = __alloc_.allocate(__n * sizeof(_Ty));
+      __detail::__any_alloc_block* __block    = __alloc_.allocate(__block_count(__n));
+      void*                        __void_ptr = __block;
+      if constexpr (__is_over_aligned)
+      {
+        // Find an aligned address after the first block, and remember where the memory starts.
+        size_t __space = (__block_count(__n) - 1) * sizeof(__detail::__any_alloc_block);
+        __void_ptr     = __block + 1;
+        __void_ptr     = std::align(alignof(_Ty), __n * sizeof(_Ty), __void_ptr, __space);
+        std::memcpy(static_cast<std::byte*>(__void_ptr) - sizeof(__block),
+                    &__block,
+                    sizeof(__block));
+      }
       return static_cast<_Ty*>(__void_ptr);
     }
 
     constexpr void deallocate(_Ty* __ptr, size_t __n) noexcept
     {
-      void* __void_ptr = static_cast<void*>(__ptr);
-      __alloc_.deallocate(static_cast<std::byte*>(__void_ptr), __n * sizeof(_Ty));
+      void*                        __void_ptr = static_cast<void*>(__ptr);
+      __detail::__any_alloc_block* __block    = nullptr;
+      if constexpr (__is_over_aligned)
+      {
+        std::memcpy(&__block,
+                    static_cast<std::byte*>(__void_ptr) - sizeof(__block),
+                    sizeof(__block));
+      }
+      else
+      {
+        __block = static_cast<__detail::__any_alloc_block*>(__void_ptr);
+      }
+      __alloc_.deallocate(__block, __block_count(__n));
     }
 
     constexpr auto operator==(__any_allocator const &) const noexcept -> bool = default;
 
    private:
-    struct __alloc_impl final : __any::__any<__detail::__byte_allocator>
+    static constexpr bool __is_over_aligned = alignof(_Ty) > alignof(__detail::__any_alloc_block);
+
+    // The number of blocks needed in addition to hold the start of the memory, and to align the rest.
+    static constexpr size_t __padding =
+      __is_over_aligned ? alignof(_Ty) / sizeof(__detail::__any_alloc_block) : 0;
+
+    static constexpr auto __block_count(size_t __n) noexcept -> size_t
+    {
+      constexpr size_t __size = sizeof(__detail::__any_alloc_block);
+      return (__n * sizeof(_Ty) + __size - 1) / __size + __padding;
+    }
+
+    struct __alloc_impl final : __any::__any<__detail::__block_allocator>
     {
       using __alloc_impl::__any::__any;
     } __alloc_{};
-- 
2.43.0


From f8c42d22f68afacc2cde3e8fa4bbbd9ff80c09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:00 +0000
Subject: [PATCH 66/67] fix: merge_each: store an item's error before
 completing the item

---
 include/exec/sequence/merge_each.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 46797ae..dc4c459 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -592,8 +592,9 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // Completing the receiver may destroy the item's operation, and the error with it.
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From 886e8c47a3a031877d67012cfbbc249445676526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:06 +0000
Subject: [PATCH 67/67] fix: thread_pool_base: look at how bulk_chunked's
 function is called when deciding whether it can throw

---
 include/exec/thread_pool_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index ed4f44c..3b18ad3 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -178,7 +178,7 @@ namespace experimental::execution
       template <class Fun, class Shape, class... Args>
       using bulk_non_throwing = STDEXEC::__mbool<
         // If function invocation doesn't throw
-        STDEXEC::__nothrow_callable<Fun, Shape, _pool_::__decay_ref_t<Args>...> &&
+        STDEXEC::__nothrow_callable<Fun&, Shape, Shape, _pool_::__decay_ref_t<Args>...> &&
         // and emplacing a tuple doesn't throw
         noexcept(STDEXEC::__decayed_std_tuple<Args...>(STDEXEC::__declval<Args>()...))
         // there's no need to advertise completion with `exception_ptr`
-- 
2.43.0

