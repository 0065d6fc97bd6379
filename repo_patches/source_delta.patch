From 9a9f52c6d57c0e0c60c58bd928474b33de5b3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 01/40] fix: lock_holder move assignment leaves the source
 owning the lock

---
 include/libcopp/utils/lock_holder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..96d09e4 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -96,6 +96,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
     }
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From 19caba91dca57fd2ce51e95284ae2e6c177f2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 02/40] fix: stack_pool::clear keeps already returned stacks in
 its free list

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From f8bbec1d618acfc54275faca10ab4bcbf5d4c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 03/40] fix: stack_pool::allocate loses a cached stack that is
 smaller than the configured size

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..d6dce8c 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -161,6 +161,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
         return;
       } else {
         // just pop cache
+        alloc_.deallocate(*iter);
         free_list_.pop_back();
       }
     }
-- 
2.43.0


From b515b04d3ca0358b62caa6e28171cdb583987461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 04/40] fix: a stackful coroutine may be resumed by another
 thread before its context is saved

yield() published EN_CRS_READY before it left the coroutine's stack, so a concurrent start()/resume()
could jump to the previous, already consumed context. The status is now published by the resuming
side, after the context was saved.
---
 src/libcopp/coroutine/coroutine_context.cpp | 26 ++++++++++-----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4abd2f6..9354893 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -397,18 +397,21 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   jump_to(callee_, callee_stack_, callee_stack_, jump_data);
 #endif
 
-  // Move changing status to EN_CRS_EXITED is finished
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    // if in finished status, change it to exited
-    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   COPP_UNLIKELY_IF (unhandle_exception_) {
     std::swap(unhandled, unhandle_exception_);
   }
 #endif
 
+  // The coroutine has left its stack and its context is saved in jump_to(...), so it can be started by others(maybe in
+  // other threads) only from now on.
+  if (check_flags(flag_type::EN_CFT_FINISHED)) {
+    // if in finished status, change it to exited
+    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  } else {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  }
+
   return COPP_EC_SUCCESS;
 }
 
@@ -424,14 +427,9 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
     return COPP_EC_NOT_INITED;
   }
 
-  int from_status = status_type::EN_CRS_RUNNING;
-  int to_status = status_type::EN_CRS_READY;
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    to_status = status_type::EN_CRS_FINISHED;
-  }
-  if (false == status_.compare_exchange_strong(from_status, to_status,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
+  // status_ will be changed by start(...) after this context is saved
+  int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
+  if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
-- 
2.43.0


From 59f5fc896f0e08ed87dff53525333af4597b7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 05/40] fix: stack_allocator_memory hands out memory beyond the
 attached buffer

Rounding the size up to whole pages could exceed the attached memory when it is not a multiple of the page size.
---
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..d8b3494 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -101,7 +101,15 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, memory_size_);
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
-  assert(size > 0 && size_ > 0 && size_ <= memory_size_);
+  if (size_ > memory_size_) {
+    // never use anything outside of the attached memory
+    size_ -= stack_traits::page_size();
+  }
+  assert(size > 0 && size_ <= memory_size_);
+  if (0 == size_) {
+    ctx.sp = nullptr;
+    return;
+  }
 
   ctx.size = size_;
   ctx.sp = static_cast<char *>(start_ptr_) + ctx.size;  // stack down
-- 
2.43.0


From 2d1d95c335de9a9b3449a8d5544da6cf11417bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 06/40] fix: stack_allocator_posix ignores a failing mprotect

A stack without its protected page was handed out when mprotect failed; the allocation fails instead.
---
 src/libcopp/stack/allocator/stack_allocator_posix.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index efb5b11..ad3c6cc 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -77,7 +77,12 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   }
 
   // memset(start_ptr, 0, size_);
-  ::mprotect(start_ptr, stack_traits::page_size(), PROT_NONE);
+  if (0 != ::mprotect(start_ptr, stack_traits::page_size(), PROT_NONE)) {
+    // no protected page, no stack
+    ::munmap(start_ptr, size_);
+    ctx.sp = nullptr;
+    return;
+  }
 
   ctx.size = size_;
   ctx.sp = static_cast<char *>(start_ptr) + ctx.size;  // stack down
-- 
2.43.0


From 08da352a7ae57c11b409bb7a59ff8ea67f7470cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 07/40] fix: uint64_id_allocator repeats ids when the clock
 stalls or goes back

---
 src/libcopp/utils/uint64_id_allocator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcopp/utils/uint64_id_allocator.cpp b/src/libcopp/utils/uint64_id_allocator.cpp
index b197308..4259149 100644
--- a/src/libcopp/utils/uint64_id_allocator.cpp
+++ b/src/libcopp/utils/uint64_id_allocator.cpp
@@ -37,9 +37,11 @@ static uint64_t allocate_id_by_atomic() {
     uint64_t next_ret = res + 1;
     uint64_t next_time_part = next_ret >> seq_bits;
     if (0 == time_part || time_part != next_time_part) {
-      uint64_t now_time = time_part;
-      while (time_part == now_time) {
-        now_time = (static_cast<uint64_t>(time(nullptr)) & time_mask) - 1577836800;  // 2020-01-01 00:00:00+00:00 UTC
+      // 2020-01-01 00:00:00+00:00 UTC
+      uint64_t now_time = (static_cast<uint64_t>(time(nullptr)) - 1577836800) & time_mask;
+      if (now_time <= time_part) {
+        // the clock has not moved on, or was set back, never use a time part twice
+        now_time = time_part + 1;
       }
 
       // if failed, maybe another thread do it
-- 
2.43.0


From 03a19d5be2fcb27b339a504a961db497904396b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 08/40] fix: kill and cancel of a finished task change its
 status and notify it again

---
 include/libcotask/task.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..e2473d4 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -569,6 +569,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      // already finished, the status must not be changed and finished event must not be notified again
+      if (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       if (EN_TS_RUNNING == from_status) {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
@@ -602,6 +607,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      // already finished, the status must not be changed and finished event must not be notified again
+      if (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From 7244766887a027485614a0e0f3867ed4422e9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 09/40] fix: a suspended task dropped by its last handle runs
 on a destroyed action

---
 include/libcotask/task.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index e2473d4..5e3bb2d 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -794,6 +794,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     size_t left = --p->ref_count_;
     if (0 == left) {
+      // finish the coroutine first if it's still waiting, the action and this task are required until then
+      EN_TASK_STATUS status = p->get_status();
+      if (status < EN_TS_DONE && status > EN_TS_CREATED) {
+        ++p->ref_count_;
+        p->kill(EN_TS_TIMEOUT);
+        if (0 != --p->ref_count_) {
+          return;
+        }
+      }
+
       // save coroutine context first, make sure it's still available after destroy task
       using this_coroutine_type = typename task<TCO_MACRO>::coroutine_type;
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
-- 
2.43.0


From 1321761c5fd115dff75db7dc0dec80f0370608b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 10/40] fix: task_manager::reset leaves its tasks bound,
 accepts calls meanwhile and stops at the first exception

---
 include/libcotask/task_manager.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..051e27b 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -231,21 +231,35 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       for (typename container_type::iterator iter = tasks_.begin(); iter != tasks_.end(); ++iter) {
         all_tasks.push_back(iter->second.task_);
         remove_timeout_timer(iter->second);
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+        using task_manager_helper = typename task_type::task_manager_helper;
+        // already removed, and this manager may be destroyed before the task is finished
+        task_manager_helper::cleanup_task_manager(*iter->second.task_, reinterpret_cast<void *>(this));
+#endif
       }
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
 
     // then, kill all tasks
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    std::list<std::exception_ptr> eptrs;
+#endif
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter)->is_exiting()) {
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+        (*iter)->kill(eptrs, EN_TS_KILLED, nullptr);
+#else
         (*iter)->kill(EN_TS_KILLED);
+#endif
       }
     }
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    task_type::maybe_rethrow(eptrs);
+#endif
   }
 
   /**
-- 
2.43.0


From d91db3c8427910d0ffa93fac2a55ba0d280ddaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 11/40] fix: a follow-up registered while its task is finishing
 in another thread is never activated

---
 include/libcotask/task.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 5e3bb2d..65b9ff8 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -234,24 +234,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return ptr_type(this);
     }
 
-    // can not add next task when finished
-    if (is_exiting() || is_completed()) {
-      // run next task immedialy
-      EN_TASK_STATUS next_task_status = next_task->get_status();
-      if (EN_TS_CREATED == next_task_status) {
-        next_task->start(priv_data);
-      } else if (EN_TS_WAITING == next_task_status) {
-        next_task->resume(priv_data);
-      }
-      return next_task;
-    }
-
+    {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        inner_action_lock_);
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
 #endif
 
-    next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+      // can not add next task when finished, and the status must be checked with the lock because all next tasks may be
+      // already taken by active_next_tasks(...) after that
+      if (!is_exiting() && !is_completed()) {
+        next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+        return next_task;
+      }
+    }
+
+    // run next task immedialy
+    EN_TASK_STATUS next_task_status = next_task->get_status();
+    if (EN_TS_CREATED == next_task_status) {
+      next_task->start(priv_data);
+    } else if (EN_TS_WAITING == next_task_status) {
+      next_task->resume(priv_data);
+    }
     return next_task;
   }
 
-- 
2.43.0


From 494325933ab60e2957a90f270d16e85a12c0187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 12/40] fix: await_task may miss the end of the task it waits
 for, or get resumed by it after returning

---
 include/libcotask/task.h | 91 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 86 insertions(+), 5 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 65b9ff8..8361297 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -71,6 +71,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
    */
   task(size_t stack_sz)
       : stack_size_(stack_sz),
+        awaiting_task_(nullptr),
         action_destroy_fn_(nullptr)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
         ,
@@ -348,20 +349,24 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_NOT_IN_ACTION;
     }
 
-    // add to next list failed
-    if (wait_task->next(ptr_type(this)).get() != this) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ADD_NEXT_FAILED;
+    _set_awaiting_task(wait_task.get());
+    if (!wait_task->_add_await_task(ptr_type(this))) {
+      _set_awaiting_task(nullptr);
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
     int ret = 0;
     while (!(wait_task->is_exiting() || wait_task->is_completed())) {
       if (is_exiting()) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+        ret = LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+        break;
       }
 
       ret = yield();
     }
 
+    // it must not be resumed by wait_task any more, this task may yield for anything else after that
+    _set_awaiting_task(nullptr);
     return ret;
   }
 
@@ -487,6 +492,20 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     // use this smart ptr to avoid destroy of this
     // ptr_type protect_from_destroy(this);
 
+    return _run(
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+        unhandled,
+#endif
+        priv_data);
+  }
+
+ private:
+  // run until the coroutine yields or finishes, the status must be already switched to EN_TS_RUNNING
+  int _run(
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+      std::list<std::exception_ptr> &unhandled,
+#endif
+      void *priv_data) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     std::exception_ptr eptr;
     int ret = coroutine_obj_->start(eptr, priv_data);
@@ -497,7 +516,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     int ret = coroutine_obj_->start(priv_data);
 #endif
 
-    from_status = EN_TS_RUNNING;
+    EN_TASK_STATUS from_status = EN_TS_RUNNING;
     if (is_completed()) {  // Atomic.CAS here
       while (from_status < EN_TS_DONE) {
         COPP_LIKELY_IF (_cas_status(from_status, EN_TS_DONE)) {  // Atomic.CAS here
@@ -525,6 +544,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       }
 
       COPP_LIKELY_IF (_cas_status(from_status, EN_TS_WAITING)) {  // Atomic.CAS here
+        // the task it's waiting for may be finished by another thread before this task turned into waiting
+        if (_take_finished_await()) {
+          return _run(
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+              unhandled,
+#endif
+              nullptr);
+        }
         break;
         // waiting
       }
@@ -533,6 +560,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     return ret;
   }
 
+ public:
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   int resume(void *priv_data, EN_TASK_STATUS expected_status = EN_TS_WAITING) override {
     return start(priv_data, expected_status);
@@ -690,12 +718,52 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
  private:
   task(const task &) = delete;
 
+  void _set_awaiting_task(self_type *wait_task) {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        inner_action_lock_);
+#endif
+    awaiting_task_ = wait_task;
+  }
+
+  bool _add_await_task(ptr_type &&task_inst) {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        inner_action_lock_);
+#endif
+    if (is_exiting() || is_completed()) {
+      return false;
+    }
+    await_list_.emplace_back(std::move(task_inst));
+    return true;
+  }
+
+  // switch to EN_TS_RUNNING if this task is still suspended in await_task(...) and the task it's waiting for is finished
+  bool _take_finished_await() {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        inner_action_lock_);
+#endif
+    if (nullptr == awaiting_task_ || !(awaiting_task_->is_exiting() || awaiting_task_->is_completed())) {
+      return false;
+    }
+
+    EN_TASK_STATUS from_status = EN_TS_WAITING;
+    do {
+      if (_cas_status(from_status, EN_TS_RUNNING)) {
+        return true;
+      }
+    } while (EN_TS_WAITING == from_status);
+    return false;
+  }
+
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   void active_next_tasks(std::list<std::exception_ptr> &unhandled) LIBCOPP_MACRO_NOEXCEPT {
 #else
   void active_next_tasks() {
 #endif
     std::list<std::pair<ptr_type, void *> > next_list;
+    std::list<ptr_type> await_list;
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
     void *manager_ptr;
     void (*manager_fn)(void *, self_type &);
@@ -707,6 +775,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
           inner_action_lock_);
 #endif
       next_list.swap(next_list_.member_list_);
+      await_list.swap(await_list_);
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
       manager_ptr = binding_manager_ptr_;
       manager_fn = binding_manager_fn_;
@@ -737,6 +806,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     }
 
+    for (typename std::list<ptr_type>::iterator iter = await_list.begin(); iter != await_list.end(); ++iter) {
+      if ((*iter)->_take_finished_await()) {
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+        (*iter)->_run(unhandled, nullptr);
+#else
+        (*iter)->_run(nullptr);
+#endif
+      }
+    }
+
 #if defined(LIBCOPP_MACRO_ENABLE_STD_COROUTINE) && LIBCOPP_MACRO_ENABLE_STD_COROUTINE
     caller_manager_.resume_callers();
 #endif
@@ -947,6 +1026,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   size_t stack_size_;
   typename coroutine_type::ptr_type coroutine_obj_;
   task_group next_list_;
+  std::list<ptr_type> await_list_;  // tasks which call await_task(...) on this task
+  self_type *awaiting_task_;        // task which this task is waiting for, protected by inner_action_lock_
 
   // ============== action information ==============
   void (*action_destroy_fn_)(void *);
-- 
2.43.0


From bdbee8302b3580515a970feefcb0e42601e36063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 13/40] fix: data passed to kill of a running task may be lost

---
 include/libcotask/task.h | 51 ++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 8361297..3306698 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -524,7 +524,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         }
       }
 
-      finish_priv_data_ = priv_data;
+      _set_finish_priv_data(priv_data);
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       _notify_finished(unhandled, priv_data);
 #else
@@ -536,9 +536,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     while (true) {
       if (from_status >= EN_TS_DONE) {  // canceled or killed
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-        _notify_finished(unhandled, finish_priv_data_);
+        _notify_finished(unhandled, _get_finish_priv_data());
 #else
-        _notify_finished(finish_priv_data_);
+        _notify_finished(_get_finish_priv_data());
 #endif
         break;
       }
@@ -637,16 +637,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     EN_TASK_STATUS from_status = get_status();
 
-    do {
-      // already finished, the status must not be changed and finished event must not be notified again
-      if (from_status >= EN_TS_DONE) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
-      }
+    {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      // finish_priv_data_ must be available once the status is changed
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#endif
+      do {
+        // already finished, the status must not be changed and finished event must not be notified again
+        if (from_status >= EN_TS_DONE) {
+          return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+        }
 
-      COPP_LIKELY_IF (_cas_status(from_status, status)) {
-        break;
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          break;
+        }
+      } while (true);
+
+      if (EN_TS_RUNNING == from_status) {
+        finish_priv_data_ = priv_data;
       }
-    } while (true);
+    }
 
     if (EN_TS_RUNNING != from_status) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
@@ -654,8 +665,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #else
       _notify_finished(priv_data);
 #endif
-    } else {
-      finish_priv_data_ = priv_data;
     }
 
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
@@ -718,6 +727,22 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
  private:
   task(const task &) = delete;
 
+  void _set_finish_priv_data(void *priv_data) {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        inner_action_lock_);
+#endif
+    finish_priv_data_ = priv_data;
+  }
+
+  void *_get_finish_priv_data() {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        inner_action_lock_);
+#endif
+    return finish_priv_data_;
+  }
+
   void _set_awaiting_task(self_type *wait_task) {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
     LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-- 
2.43.0


From f7f2670a8671b8daab2fb327343b72002ca7afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 14/40] fix: timeouts whose nanoseconds add up to a second or
 more fire early

---
 include/libcotask/task_manager.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 051e27b..5094f2c 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -70,6 +70,14 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
 #endif
 };
 
+// make tv_nsec less than one second, it may be the sum of two time points
+inline void normalize_tickspec(tickspec_t &t) {
+  if (t.tv_nsec >= 1000000000) {
+    t.tv_sec += t.tv_nsec / 1000000000;
+    t.tv_nsec %= 1000000000;
+  }
+}
+
 template <class TTASK_ID_TYPE>
 struct LIBCOPP_COTASK_API_HEAD_ONLY task_timer_node {
   tickspec_t expired_time;
@@ -720,6 +728,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        detail::normalize_tickspec(new_checkpoint.expired_time);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -844,6 +853,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     timer_node.task_id = node.task_->get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1328,6 +1338,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        detail::normalize_tickspec(new_checkpoint.expired_time);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1441,6 +1452,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     timer_node.task_id = node.task_.get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From 8e8d42591127cc1876b835c81f73f9c9175888b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 15/40] fix: add_task may add a task which is finished by
 another thread meanwhile

---
 include/libcotask/task_manager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 5094f2c..215d716 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -330,6 +330,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     if (!task_manager_helper::setup_task_manager(*task, reinterpret_cast<void *>(this), &task_cleanup_callback)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
     }
+
+    // it may be finished by another thread before it's bound, and will not be removed from this manager then
+    if (task->is_exiting()) {
+      task_manager_helper::cleanup_task_manager(*task, reinterpret_cast<void *>(this));
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+    }
 #endif
 
     // try to insert to container
-- 
2.43.0


From 44a8e9de70f82258936b47f7d4f09b3a0a066a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 16/40] fix: a task may call a manager that was destroyed by a
 follow-up or waiter of it

---
 include/libcotask/task.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 3306698..000fb8e 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -789,10 +789,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     std::list<std::pair<ptr_type, void *> > next_list;
     std::list<ptr_type> await_list;
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    void *manager_ptr;
-    void (*manager_fn)(void *, self_type &);
-#endif
     // first, lock and swap container
     {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -801,12 +797,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
       next_list.swap(next_list_.member_list_);
       await_list.swap(await_list_);
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      manager_ptr = binding_manager_ptr_;
-      manager_fn = binding_manager_fn_;
-      binding_manager_ptr_ = nullptr;
-      binding_manager_fn_ = nullptr;
-#endif
     }
 
     // then, do all the pending tasks
@@ -847,6 +837,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    void *manager_ptr;
+    void (*manager_fn)(void *, self_type &);
+    // the manager may be destroyed or remove this task when running the tasks above
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#  endif
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
     if (nullptr != manager_ptr && nullptr != manager_fn) {
       (*manager_fn)(manager_ptr, *this);
     }
-- 
2.43.0


From 2fc9b45e488ef1f0c46a7d5b9c5fdf8cecdc40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 17/40] fix: concurrent calls of task_manager::tick read timers
 and time without the lock

---
 include/libcotask/task_manager.h | 69 ++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 215d716..b1d8667 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -191,20 +191,25 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
   using flag_t = flag_type;
 
  private:
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int>;
+#else
+  using flags_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<int>>;
+#endif
+
   struct flag_guard_type {
-    int *data_;
+    flags_type *data_;
     typename flag_type::type flag_;
-    inline flag_guard_type(int *flags, typename flag_type::type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & flag_)) {
+    inline flag_guard_type(flags_type *flags, typename flag_type::type v) : data_(flags), flag_(v) {
+      if (nullptr == data_ || (data_->fetch_or(flag_) & flag_)) {
         flag_ = flag_type::EN_TM_NONE;
         data_ = nullptr;
-      } else {
-        (*data_) |= flag_;
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~flag_;
+        data_->fetch_and(~flag_);
       }
     }
 
@@ -295,7 +300,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ARGS_ERROR;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -377,7 +382,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @see tick
    */
   int set_timeout(id_type id, time_t timeout_sec, int timeout_nsec) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -419,7 +424,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @return 0 or error code
    */
   int remove_task(id_type id, const task_type *confirm_ptr) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -468,7 +473,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @return smart pointer of task
    */
   task_ptr_type find_task(id_type id) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return task_ptr_type();
     }
 
@@ -499,7 +504,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int start(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -548,7 +553,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int resume(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -597,7 +602,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int cancel(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -650,7 +655,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int kill(id_type id, enum EN_TASK_STATUS status, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -702,11 +707,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -716,12 +716,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
+    detail::tickspec_t last_tick_time;
+    {
+      // hold lock
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#endif
+      last_tick_time = last_tick_time_;
+    }
+
+    // time can not be back
+    if (sec < last_tick_time.tv_sec || (sec == last_tick_time.tv_sec && nsec <= last_tick_time.tv_nsec)) {
+      return 0;
+    }
+
     // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    if (0 == last_tick_time.tv_sec && 0 == last_tick_time.tv_nsec) {
       // hold lock
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
@@ -757,7 +772,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -767,10 +782,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -803,8 +824,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    last_tick_time_ = now_tick_time;
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
 #endif
@@ -893,7 +912,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #endif
-  int flags_;
+  flags_type flags_;
 };
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_COROUTINE) && LIBCOPP_MACRO_ENABLE_STD_COROUTINE
-- 
2.43.0


From fad52a0dd0389d88b1b103fd39c02211d2aebea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 18/40] fix: tick leaves an exiting task bound to the manager
 it was removed from

---
 include/libcotask/task_manager.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index b1d8667..ba41150 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -809,13 +809,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         }
       }
 
-      // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      }
 #endif
+
+      // task call can not be used when lock is on
+      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
-- 
2.43.0


From 3fec252e7fcf0d344ccd161665ca088282a64cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 19/40] fix: stack_pool::set_stack_size lets larger stacks be
 kept and handed out while the size changes

---
 include/libcopp/stack/stack_pool.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index d6dce8c..5f73e7e 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -82,10 +82,16 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     }
 
     if (sz != conf_.stack_size) {
-      clear();
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          action_lock_);
+#endif
+      // no stack of the previous size can be kept or reused after the size is changed
+      conf_.stack_size = sz;
+      clear_free_list();
     }
 
-    return conf_.stack_size = sz;
+    return sz;
   }
   size_t get_stack_size() const { return conf_.stack_size; }
   size_t get_stack_size_offset() const { return conf_.stack_offset; }
@@ -296,6 +302,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
         action_lock_);
 #endif
 
+    clear_free_list();
+  }
+
+ private:
+  // action_lock_ must be held
+  void clear_free_list() {
     limits_.free_stack_size = 0;
     limits_.free_stack_number = 0;
 
-- 
2.43.0


From 9f4ebde76f88f9f2ecb4ab5dbcd633b61e8ab0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 20/40] fix: callable_future move assignment destroys the
 coroutine held before

---
 include/libcopp/coroutine/callable_promise.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..6fe9524 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -317,8 +317,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    if (this != &other) {
+      // The coroutine held before is destroyed when leaving this function
+      callable_future old_future{current_handle_};
+      current_handle_ = other.current_handle_;
+      other.current_handle_ = nullptr;
+    }
     return *this;
   }
 
-- 
2.43.0


From 95299b8953a3792051a3af87a3793cd3f4e72186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 21/40] fix: C++20 generator and task awaitables keep the value
 for later callers

---
 include/libcopp/coroutine/generator_promise.h | 13 ++-----------
 include/libcotask/task_promise.h              | 14 ++------------
 2 files changed, 4 insertions(+), 23 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..6a8e911 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -441,12 +441,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
       : base_type(context, vtable) {}
 
   inline value_type await_resume() {
-    bool has_multiple_callers;
-    COPP_LIKELY_IF (nullptr != get_context()) {
-      has_multiple_callers = get_context()->has_multiple_callers();
-    } else {
-      has_multiple_callers = false;
-    }
     promise_status result_status = detach();
 
     if (promise_status::kDone != result_status) {
@@ -454,11 +448,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
     }
 
     COPP_LIKELY_IF (nullptr != get_context()) {
-      if (has_multiple_callers) {
-        return *get_context()->data();
-      } else {
-        return multiple_callers_constructor<value_type>::return_value(*get_context()->data());
-      }
+      // Other callers, continuations and the owner may still read the value, so it can not be moved out.
+      return *get_context()->data();
     } else {
       return error_transform()(promise_status::kInvalid);
     }
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index c407ca4..360a371 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -717,12 +717,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
   task_awaitable(context_type* context) : base_type(context) {}
 
   inline value_type await_resume() {
-    bool has_multiple_callers;
-    COPP_LIKELY_IF (nullptr != get_context()) {
-      has_multiple_callers = get_context()->has_multiple_callers();
-    } else {
-      has_multiple_callers = false;
-    }
     task_status_type result_status = detach();
 
     if (task_status_type::kDone != result_status) {
@@ -730,12 +724,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
     }
 
     COPP_LIKELY_IF (nullptr != get_context()) {
-      if (has_multiple_callers) {
-        return *get_context()->data();
-      } else {
-        return LIBCOPP_COPP_NAMESPACE_ID::multiple_callers_constructor<value_type>::return_value(
-            *get_context()->data());
-      }
+      // Other callers, continuations and the owner may still read the value, so it can not be moved out.
+      return *get_context()->data();
     } else {
       return error_transform()(task_status_type::kInvalid);
     }
-- 
2.43.0


From 5f4298f725e02407cd8a0146f64c6f6cabcee7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 22/40] fix: keep the suspend callback of a generator alive
 while it runs

---
 include/libcopp/coroutine/generator_promise.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 6a8e911..b28c2df 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -330,8 +330,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
       caller.promise().set_flag(promise_flag::kInternalWaitting, true);
 
       // Custom event. awaitable object may be deleted after this call
-      if (vtable_ && vtable_->get_await_suspend_callback()) {
-        vtable_->get_await_suspend_callback()(context_->shared_from_this());
+      // Keep the callback alive until it returns
+      copp::util::intrusive_ptr<vtable_type> vtable = vtable_;
+      if (vtable && vtable->get_await_suspend_callback()) {
+        vtable->get_await_suspend_callback()(context_->shared_from_this());
       }
 
       return true;
@@ -554,8 +556,10 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
     generator.get_context()->add_caller(caller);
 
     // Custom event. awaitable object may be deleted after this call
-    if (generator.vtable_ && generator.vtable_->get_await_suspend_callback()) {
-      generator.vtable_->get_await_suspend_callback()(generator.get_context());
+    // Keep the callback alive until it returns
+    auto vtable = generator.vtable_;
+    if (vtable && vtable->get_await_suspend_callback()) {
+      vtable->get_await_suspend_callback()(generator.get_context());
     }
   }
 
-- 
2.43.0


From 0a6457d8ec7c4549eee71f9ae6f900f88a63c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 23/40] fix: keep the context of a generator alive until all
 callers are resumed

---
 include/libcopp/coroutine/generator_promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index b28c2df..58beca5 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -232,7 +232,13 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_context
   using base_type::is_pending;
   using base_type::is_ready;
   using base_type::reset_value;
-  using base_type::set_value;
+
+  template <class... TARGS>
+  UTIL_FORCEINLINE void set_value(TARGS&&... args) {
+    // A resumed caller may drop the last reference of this context while there are still other callers to resume
+    auto self = this->weak_from_this().lock();
+    base_type::set_value(std::forward<TARGS>(args)...);
+  }
 };
 
 template <class TCONTEXT>
-- 
2.43.0


From 7fc8929a779cc1cc5cb770943308db0a78c4fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 24/40] fix: waiting for some futures handles events raised
 while suspending, and the bound when some are ready

---
 include/libcopp/coroutine/callable_promise.h | 67 ++++++++++++++------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 6fe9524..fe5b988 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -8,6 +8,8 @@
 #include <libcopp/utils/config/stl_include_prefix.h>  // NOLINT(build/include_order)
 // clang-format on
 #include <cstdlib>
+#include <list>
+#include <memory>
 #include <type_traits>
 // clang-format off
 #include <libcopp/utils/config/stl_include_suffix.h>  // NOLINT(build/include_order)
@@ -464,10 +466,13 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   using future_type = TFUTURE;
   using ready_output_type = typename some_ready<future_type>::type;
 
+  // futures which are not ready and not suspended yet
+  std::list<future_type*> unsuspended;
   std::list<future_type*> pending;
   ready_output_type ready;
   size_t ready_bound = 0;
   size_t scan_bound = 0;
+  size_t resume_times = 0;
   promise_status status = promise_status::kCreated;
   promise_caller_manager::handle_delegate caller_handle = promise_caller_manager::handle_delegate(nullptr);
 };
@@ -497,6 +502,22 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
     }
   }
 
+  static void suspend_all(context_type& context) {
+    // Custom event may resume and finish the caller, which clears context.caller_handle
+    while (context.caller_handle && !context.unsuspended.empty()) {
+      future_type& future = *context.unsuspended.front();
+      context.unsuspended.pop_front();
+      // It may become ready when suspending the futures before
+      if (delegate_action_type::is_pending(future)) {
+        context.pending.push_back(&future);
+        delegate_action_type::suspend_future(context.caller_handle, future);
+      } else {
+        context.ready.push_back(gsl::make_not_null(&future));
+        ++context.scan_bound;
+      }
+    }
+  }
+
   static void scan_ready(context_type& context) {
     auto iter = context.pending.begin();
 
@@ -516,10 +537,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
  public:
   class awaitable_type : public awaitable_base_type {
    public:
-    awaitable_type(context_type* context) : context_(context) {}
+    awaitable_type(const std::shared_ptr<context_type>& context) : context_(context) {}
 
     inline bool await_ready() noexcept {
-      if (nullptr == context_) {
+      if (!context_) {
         return true;
       }
 
@@ -527,7 +548,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
         return true;
       }
 
-      return context_->pending.empty();
+      return context_->pending.empty() && context_->unsuspended.empty();
     }
 
 #  if defined(LIBCOPP_MACRO_ENABLE_CONCEPTS) && LIBCOPP_MACRO_ENABLE_CONCEPTS
@@ -536,7 +557,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
     template <class TCPROMISE, typename = std::enable_if_t<std::is_base_of<promise_base_type, TCPROMISE>::value>>
 #  endif
     inline bool await_suspend(LIBCOPP_MACRO_STD_COROUTINE_NAMESPACE coroutine_handle<TCPROMISE> caller) noexcept {
-      if (nullptr == context_ || caller.promise().get_status() >= promise_status::kDone) {
+      if (!context_ || caller.promise().get_status() >= promise_status::kDone) {
         // Already done and can not suspend again
         // caller.resume();
         return false;
@@ -550,10 +571,18 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       // set caller for all futures
       if (!context_->caller_handle) {
         context_->caller_handle = caller;
-        // Copy pending here, the callback may call resume and will change the pending list
-        std::list<future_type*> copy_pending = context_->pending;
-        for (auto& pending_future : copy_pending) {
-          delegate_action_type::suspend_future(context_->caller_handle, *pending_future);
+
+        // The callback may resume or even destroy the caller and this awaitable object
+        std::shared_ptr<context_type> context = context_;
+        size_t resume_times = context->resume_times;
+        suspend_all(*context);
+
+        if (context->caller_handle && context->status < promise_status::kDone &&
+            context->scan_bound >= context->ready_bound) {
+          if (resume_times == context->resume_times) {
+            return false;
+          }
+          caller.resume();
         }
       }
 
@@ -570,10 +599,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
         set_caller(nullptr);
       }
 
-      if (nullptr == context_) {
+      if (!context_) {
         return;
       }
 
+      ++context_->resume_times;
       ++context_->scan_bound;
       if (context_->scan_bound >= context_->ready_bound) {
         scan_ready(*context_);
@@ -586,20 +616,20 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
     }
 
    private:
-    context_type* context_;
+    std::shared_ptr<context_type> context_;
   };
 
  public:
   struct promise_type {
-    context_type* context_;
+    std::shared_ptr<context_type> context_;
 
-    promise_type(context_type* context) : context_(context) {}
+    promise_type(const std::shared_ptr<context_type>& context) : context_(context) {}
     promise_type(const promise_type&) = delete;
     promise_type(promise_type&&) = delete;
     promise_type& operator=(const promise_type&) = delete;
     promise_type& operator=(promise_type&&) = delete;
     ~promise_type() {
-      COPP_LIKELY_IF (nullptr != context_ && !!context_->caller_handle) {
+      COPP_LIKELY_IF (context_ && !!context_->caller_handle) {
         force_resume_all(*context_);
       }
     }
@@ -611,14 +641,15 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
   static callable_future<promise_status> run(ready_output_type& ready_futures, size_t ready_count,
                                              TCONTAINER* futures) {
     using container_type = typename std::decay<typename std::remove_pointer<TCONTAINER>::type>::type;
-    context_type context;
+    std::shared_ptr<context_type> context_pointer = std::make_shared<context_type>();
+    context_type& context = *context_pointer;
     context.ready.reserve(gsl::size(*futures));
 
     for (auto& future_object : *futures) {
       auto& future_ref =
           pick_some_reference<typename std::remove_reference<decltype(future_object)>::type>::unwrap(future_object);
       if (delegate_action_type::is_pending(future_ref)) {
-        context.pending.push_back(&future_ref);
+        context.unsuspended.push_back(&future_ref);
       } else {
         context.ready.push_back(gsl::make_not_null(&future_ref));
       }
@@ -629,15 +660,15 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.unsuspended.size() + context.ready.size()) {
+      ready_count = context.unsuspended.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
     context.status = promise_status::kRunning;
 
     {
-      promise_type some_promise{&context};
+      promise_type some_promise{context_pointer};
       while (context.status < promise_status::kDone) {
         // Killed by caller
         auto current_status = co_yield callable_future<promise_status>::yield_status();
-- 
2.43.0


From 6c5f4e5c04e3a716180cc1746ee5a21c1b48ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 25/40] fix: a caller destroyed by another caller is not
 resumed any more

---
 .../libcopp/coroutine/std_coroutine_common.h  |  8 ++
 .../coroutine/std_coroutine_common.cpp        | 77 ++++++++++---------
 2 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..7861f23 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -183,6 +183,14 @@ class promise_caller_manager {
   };
 
   using multi_caller_set = std::unordered_set<handle_delegate, handle_delegate_hash>;
+
+  // Callers which are being resumed by resume_callers(), they can still be removed until they are resumed
+  struct resume_context {
+    multi_caller_set callers;
+    promise_caller_manager *owner;
+    resume_context *previous;
+  };
+  resume_context *resuming_;
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   std::variant<handle_delegate, multi_caller_set> callers_;
 #  else
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..c412115 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -18,7 +18,7 @@
 LIBCOPP_COPP_NAMESPACE_BEGIN
 
 LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
-    :
+    : resuming_(nullptr),
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
       callers_(handle_delegate{nullptr})
 #  else
@@ -27,7 +27,12 @@ LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
 {
 }
 
-LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {}
+LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {
+  // This object may be destroyed by the caller which is being resumed
+  for (resume_context *context = resuming_; nullptr != context; context = context->previous) {
+    context->owner = nullptr;
+  }
+}
 
 LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegate) noexcept {
   if (!delegate.handle || delegate.handle.done()) {
@@ -65,10 +70,14 @@ LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegat
 
 LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate delegate) noexcept {
   bool has_caller = false;
+  for (resume_context *context = resuming_; nullptr != context; context = context->previous) {
+    has_caller = context->callers.erase(delegate) > 0 || has_caller;
+  }
+
   do {
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
     if (std::holds_alternative<multi_caller_set>(callers_)) {
-      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0;
+      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0 || has_caller;
       break;
     }
 
@@ -84,7 +93,7 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
     }
 
     if (multiple_callers_) {
-      has_caller = multiple_callers_->erase(delegate) > 0;
+      has_caller = multiple_callers_->erase(delegate) > 0 || has_caller;
     }
 #  endif
   } while (false);
@@ -103,42 +112,38 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
       caller.handle.resume();
       ++resume_count;
     }
-  } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+    return resume_count;
   }
+
+  resume_context context;
+  context.callers.swap(std::get<multi_caller_set>(callers_));
 #  else
-  auto unique_caller = unique_caller_;
-  unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
-
-  // The promise object may be destroyed after first caller.resume()
-  if (unique_caller.handle && !unique_caller.handle.done() &&
-      (nullptr == unique_caller.promise || !unique_caller.promise->check_flag(promise_flag::kDestroying))) {
-    unique_caller.handle.resume();
-    ++resume_count;
-  }
-
-  if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+  resume_context context;
+  if (multiple_callers_) {
+    context.callers.swap(*multiple_callers_);
+  }
+  if (unique_caller_.handle) {
+    context.callers.insert(unique_caller_);
+    unique_caller_ = nullptr;
   }
 #  endif
+
+  // A resumed caller may destroy this object or other callers, and the latter will be removed by remove_caller()
+  context.owner = this;
+  context.previous = resuming_;
+  resuming_ = &context;
+  while (!context.callers.empty()) {
+    auto caller = *context.callers.begin();
+    context.callers.erase(context.callers.begin());
+    if (caller.handle && !caller.handle.done() &&
+        (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
+      caller.handle.resume();
+      ++resume_count;
+    }
+  }
+  if (nullptr != context.owner) {
+    context.owner->resuming_ = context.previous;
+  }
   return resume_count;
 }
 
-- 
2.43.0


From 08636246a0eee546e4508ff189b713d21e909a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 26/40] fix: resume callbacks of a group of generators run
 after all callers are removed

---
 include/libcopp/coroutine/callable_promise.h  | 11 +++++++++++
 include/libcopp/coroutine/generator_promise.h |  2 ++
 include/libcotask/task_promise.h              |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index fe5b988..109f8d3 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -469,6 +469,8 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   // futures which are not ready and not suspended yet
   std::list<future_type*> unsuspended;
   std::list<future_type*> pending;
+  // futures which are ready after being suspended
+  std::list<future_type*> resumed;
   ready_output_type ready;
   size_t ready_bound = 0;
   size_t scan_bound = 0;
@@ -492,6 +494,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       delegate_action_type::resume_future(context.caller_handle, *pending_future);
     }
 
+    // All callers are removed now, so the custom events can not resume the running caller again
+    context.resumed.splice(context.resumed.end(), context.pending);
+    for (auto& resumed_future : context.resumed) {
+      delegate_action_type::resume_callback(*resumed_future);
+    }
+
     if (context.status < promise_status::kDone && nullptr != context.caller_handle.promise) {
       context.status = context.caller_handle.promise->get_status();
     }
@@ -528,6 +536,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       }
       future_type& future = **iter;
       context.ready.push_back(gsl::make_not_null(&future));
+      context.resumed.push_back(&future);
       iter = context.pending.erase(iter);
 
       delegate_action_type::resume_future(context.caller_handle, future);
@@ -706,6 +715,8 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_callable_action {
     // Do not force resume callee here, we allow to await the unready callable later.
   }
 
+  inline static void resume_callback(future_type&) noexcept {}
+
   inline static bool is_pending(future_type& future_object) noexcept {
     auto future_status = future_object.get_status();
     return future_status >= promise_status::kCreated && future_status < promise_status::kDone;
diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 58beca5..c8359ab 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -571,7 +571,9 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
 
   inline static void resume_future(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
     generator.get_context()->remove_caller(caller);
+  }
 
+  inline static void resume_callback(future_type& generator) {
     // Custom event
     if (generator.vtable_ && generator.vtable_->get_await_resume_callback()) {
       generator.vtable_->get_await_resume_callback()(*generator.get_context());
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 360a371..198b5ba 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -1710,6 +1710,8 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY some_delegate_task_action {
     }
   }
 
+  inline static void resume_callback(future_type&) noexcept {}
+
   inline static bool is_pending(future_type& future_object) noexcept { return !future_object.is_exiting(); }
 };
 
-- 
2.43.0


From 84779e1a664280aa21c92cf25560b6e51820de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 27/40] fix: C++20 task_manager reset and tick unbind every
 task they drop, and calls are refused during reset

---
 include/libcotask/task_manager.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index ba41150..74dd6d2 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -987,11 +987,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       for (typename container_type::iterator iter = tasks_.begin(); iter != tasks_.end(); ++iter) {
         all_tasks.push_back(iter->second.task_);
         remove_timeout_timer(iter->second);
+#  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+        using task_manager_helper = typename task_type::task_manager_helper;
+        // already removed, and this manager may be destroyed before the task is finished
+        task_manager_helper::cleanup_task_manager(*iter->second.task_.get_context(), reinterpret_cast<void *>(this));
+#  endif
       }
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
@@ -999,12 +1003,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     // then, kill all tasks
     for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter).is_exiting()) {
-#  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
-#  endif
-
         (*iter).kill(task_status_type::kKilled);
       }
     }
@@ -1417,13 +1415,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         }
       }
 
-      // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst.get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
+
+      // task call can not be used when lock is on
+      if (!task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From 20f601c0d214f8379d16b4db6b63a4d5c726129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 28/40] fix: C++20 task_manager::remove_task returns an error
 code instead of the result of kill

---
 include/libcotask/task_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 74dd6d2..2450f87 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1180,7 +1180,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       task_status_type task_status = task_inst.get_status();
       if (task_status > task_status_type::kCreated && task_status < task_status_type::kDone) {
-        return task_inst.kill(task_status_type::kKilled);
+        task_inst.kill(task_status_type::kKilled);
       }
     }
 
-- 
2.43.0


From fd2bfc9e26f4e17a6fcc67489d85712adf7c015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 29/40] fix: task_manager::reset called from inside a tick
 keeps the time that timeouts are counted from

---
 include/libcotask/task_manager.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 2450f87..f12984e 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -253,8 +253,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      last_tick_time_.tv_sec = 0;
-      last_tick_time_.tv_nsec = 0;
+      // a tick in progress still needs the current time, and sets it when it's done
+      if (!(flags_.load() & flag_type::EN_TM_IN_TICK)) {
+        last_tick_time_.tv_sec = 0;
+        last_tick_time_.tv_nsec = 0;
+      }
     }
 
     // then, kill all tasks
@@ -996,8 +999,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      last_tick_time_.tv_sec = 0;
-      last_tick_time_.tv_nsec = 0;
+      // a tick in progress still needs the current time, and sets it when it's done
+      if (!(flags_ & static_cast<uint32_t>(flag_type::kTimerTick))) {
+        last_tick_time_.tv_sec = 0;
+        last_tick_time_.tv_nsec = 0;
+      }
     }
 
     // then, kill all tasks
-- 
2.43.0


From 38c702df5236db135a8565d4b324ddc3c42bfb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 30/40] fix: swapping trivial results of different kinds keeps
 both values whole

---
 include/libcopp/future/storage.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..0c08d59 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -433,13 +433,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
   }
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
-    using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
-    }
-    swap(mode_, other.mode_);
+    // The two sides may hold different kinds of data with different sizes, exchange the whole union
+    result_base temp(other);
+    other = *this;
+    *this = temp;
   }
 
   UTIL_FORCEINLINE friend void swap(result_base &l, result_base &r) LIBCOPP_MACRO_NOEXCEPT { l.swap(r); }
-- 
2.43.0


From 778978c5d71642911f964dced186a6a45f85dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 31/40] fix: the size check of a new task does not overflow
 with a huge private buffer size

---
 include/libcotask/task.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 000fb8e..88d6d0b 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -102,7 +102,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
-    if (stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
+    // private_buffer_size may be any value, the sum must not overflow
+    if (stack_size <= private_buffer_size ||
+        stack_size - private_buffer_size <= sizeof(impl::task_impl *) + action_size + task_size) {
       return ptr_type();
     }
 
-- 
2.43.0


From b561784133038c5a64ad065957670f7e1e5ee61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 32/40] fix: a stack size that overflows when rounded to pages
 is refused by the allocators

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 5 +++++
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index 343c88b..104f5f0 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -50,6 +50,11 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ < size) {
+    // overflow
+    ctx.sp = nullptr;
+    return;
+  }
 
   void *start_ptr = malloc(size_);
 
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index ad3c6cc..e737ad9 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -61,6 +61,11 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size) + stack_traits::page_size();  // add one protected page
+  if (size_ < size) {
+    // overflow
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0);
 
   // conform to POSIX.4 (POSIX.1b-1993, _POSIX_C_SOURCE=199309L)
-- 
2.43.0


From ddb2e2079737db38e18bf4e475f315aa03bcf885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 33/40] fix: creation of a coroutine is refused when its
 objects do not fit in the stack got from the allocator

---
 .../coroutine/coroutine_context_container.h      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..66275db 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -75,13 +75,19 @@ class coroutine_context_container : public coroutine_context {
       stack_sz = stack_traits::default_size();
     }
 
+    // sizes may be any value, the sums must not overflow
+    if (stack_sz <= coroutine_size || stack_sz - coroutine_size <= private_buffer_size) {
+      return ret;
+    }
+    const size_t require_size = coroutine_size + private_buffer_size;
+
     // padding to sizeof size_t
     coroutine_size = align_address_size(coroutine_size);
     const size_t this_align_size = align_address_size(sizeof(this_type));
     coroutine_size += this_align_size;
     private_buffer_size = coroutine_context::align_private_data_size(private_buffer_size);
 
-    if (stack_sz <= coroutine_size + private_buffer_size) {
+    if (coroutine_size + private_buffer_size <= require_size || stack_sz <= coroutine_size + private_buffer_size) {
       return ret;
     }
 
@@ -92,6 +98,14 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // some allocators have stacks of a fixed size, which may be smaller than stack_sz(and the lowest page is protected)
+    if (callee_stack.size < stack_sz &&
+        (callee_stack.size <= stack_traits::page_size() ||
+         callee_stack.size - stack_traits::page_size() <= coroutine_size + private_buffer_size)) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
-- 
2.43.0


From d8f98845b8068a5db760f204dfe56b42c618b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 34/40] fix: a task future assigned from a handle that the task
 it replaces owns read freed memory

---
 include/libcotask/task_promise.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 198b5ba..48f7431 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -794,12 +794,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-
-    COPP_LIKELY_IF (other.context_) {
-      ++other.context_->future_counter_;
-    }
-    context_ = other.context_;
+    // The task held before may own other, it is released when leaving this function
+    task_future_base holder{other};
+    context_.swap(holder.context_);
   }
 
   void assign(task_future_base&& other) noexcept {
@@ -807,10 +804,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-    context_.swap(other.context_);
-
-    return;
+    // The task held before may own other, it is released when leaving this function
+    task_future_base holder{std::move(other)};
+    context_.swap(holder.context_);
   }
 
   void reset() {
-- 
2.43.0


From b811815d3dd4985d41d4b0a89e33e4184a7ad692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 35/40] fix: a generator future assigned from a handle that the
 generator it replaces owns read freed memory

---
 include/libcopp/coroutine/generator_promise.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index c8359ab..723ec99 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -495,8 +495,23 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_future {
 
   generator_future(generator_future&&) = default;
   generator_future(const generator_future&) = default;
-  generator_future& operator=(generator_future&&) = default;
-  generator_future& operator=(const generator_future&) = default;
+  generator_future& operator=(generator_future&& other) noexcept {
+    if (this != &other) {
+      // The context held before may own other and wakes its callers, it is released when leaving this function
+      generator_future holder{std::move(other)};
+      context_.swap(holder.context_);
+      vtable_.swap(holder.vtable_);
+    }
+    return *this;
+  }
+  generator_future& operator=(const generator_future& other) noexcept {
+    if (this != &other) {
+      generator_future holder{other};
+      context_.swap(holder.context_);
+      vtable_.swap(holder.vtable_);
+    }
+    return *this;
+  }
 
   ~generator_future() {
     if (context_) {
-- 
2.43.0


From de4bb8d8a80028ebbab330c90c79b10a979acd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 36/40] fix: a success-or-error result assigned from a result
 that its old value owns wrote to freed memory

---
 include/libcopp/future/storage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 0c08d59..d54e254 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -490,8 +490,9 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, false> {
   }
 
   result_base &operator=(result_base &&other) {
-    swap(other);
-    other.reset();
+    // other may be owned by the value being replaced, so it must not be used after that value is destroyed
+    result_base temp(std::move(other));
+    swap(temp);
     return *this;
   }
 
-- 
2.43.0


From fe6804f1961976eed18070480542eccd994dd117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:15 +0000
Subject: [PATCH 37/40] fix: a lock guard assigned from another guard of the
 same shared lock lost one acquisition

---
 include/libcopp/utils/lock_holder.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 96d09e4..09c5e5b 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -91,9 +91,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
       return *this;
     }
 
-    if (lock_flag_ != other.lock_flag_) {
-      reset();
-    }
+    reset();
 
     lock_flag_ = other.lock_flag_;
     other.lock_flag_ = nullptr;
-- 
2.43.0


From 838501e336238037b239248e14bd86425af76806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 38/40] fix: task::then took the allocator of the parent task,
 whose stack was then handed back to a moved from allocator

---
 include/libcotask/task.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 88d6d0b..81d5c54 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -400,9 +400,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
     }
 
-    return then(
-        create(std::forward<Ty>(functor), coroutine_obj_->get_allocator(), stack_size_, get_private_buffer_size()),
-        priv_data);
+    // the allocator passed to create(...) will be moved away, but this task still need it to release the stack
+    typename coroutine_type::allocator_type alloc(coroutine_obj_->get_allocator());
+    return then(create(std::forward<Ty>(functor), alloc, stack_size_, get_private_buffer_size()), priv_data);
   }
 
   template <typename Ty>
@@ -411,7 +411,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return then(create(func, stack_size_, get_private_buffer_size()), priv_data);
     }
 
-    return then(create(func, coroutine_obj_->get_allocator(), stack_size_, get_private_buffer_size()), priv_data);
+    // the allocator passed to create(...) will be moved away, but this task still need it to release the stack
+    typename coroutine_type::allocator_type alloc(coroutine_obj_->get_allocator());
+    return then(create(func, alloc, stack_size_, get_private_buffer_size()), priv_data);
   }
 
   /**
-- 
2.43.0


From 73585e432a408fbbe7fb3f92e3c2e78f7a55d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:38 +0000
Subject: [PATCH 39/40] fix: timeouts given in nanoseconds beyond a second
 overflow or are compared wrongly

A timeout of more than about 1.1 s given in nanoseconds overflows when added to the nanoseconds of the last tick,
and ends the task early; a negative part of a second leaves a time point that compares wrongly.
---
 include/libcotask/task_manager.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index f12984e..19e2136 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -70,11 +70,14 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
 #endif
 };
 
-// make tv_nsec less than one second, it may be the sum of two time points
+// make tv_nsec less than one second and not negative, it may be the sum of two time points
 inline void normalize_tickspec(tickspec_t &t) {
   if (t.tv_nsec >= 1000000000) {
     t.tv_sec += t.tv_nsec / 1000000000;
     t.tv_nsec %= 1000000000;
+  } else if (t.tv_nsec < 0) {
+    t.tv_sec -= 1;
+    t.tv_nsec += 1000000000;
   }
 }
 
@@ -882,8 +885,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_->get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    // timeout_nsec may be negative, or more than one second and then the sum must not overflow
+    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec + timeout_nsec / 1000000000;
+    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec % 1000000000;
     detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
@@ -1485,8 +1489,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_.get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    // timeout_nsec may be negative, or more than one second and then the sum must not overflow
+    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec + timeout_nsec / 1000000000;
+    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec % 1000000000;
     detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
-- 
2.43.0


From d9c776c75c82aae4436579e4c03b23776cf25997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:15 +0000
Subject: [PATCH 40/40] Revert "fix: timeouts given in nanoseconds beyond a
 second overflow or are compared wrongly"

This reverts commit 73585e432a408fbbe7fb3f92e3c2e78f7a55d2a4.
---
 include/libcotask/task_manager.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 19e2136..f12984e 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -70,14 +70,11 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
 #endif
 };
 
-// make tv_nsec less than one second and not negative, it may be the sum of two time points
+// make tv_nsec less than one second, it may be the sum of two time points
 inline void normalize_tickspec(tickspec_t &t) {
   if (t.tv_nsec >= 1000000000) {
     t.tv_sec += t.tv_nsec / 1000000000;
     t.tv_nsec %= 1000000000;
-  } else if (t.tv_nsec < 0) {
-    t.tv_sec -= 1;
-    t.tv_nsec += 1000000000;
   }
 }
 
@@ -885,9 +882,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_->get_id();
-    // timeout_nsec may be negative, or more than one second and then the sum must not overflow
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec + timeout_nsec / 1000000000;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec % 1000000000;
+    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
+    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
     detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
@@ -1489,9 +1485,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_.get_id();
-    // timeout_nsec may be negative, or more than one second and then the sum must not overflow
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec + timeout_nsec / 1000000000;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec % 1000000000;
+    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
+    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
     detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
-- 
2.43.0

