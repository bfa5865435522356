From 2adebbe066f70e7db5fd5bbedf7636f7b6d97a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 01/26] fix: wake readers blocked only by a timed writer that
 gave up

With WriterPrefer new readers wait while a writer is waiting. When that
writer's try_lock_for/try_lock_until timed out, the readers were not
notified and stayed blocked although the lock was available to them.
---
 include/alternate_shared_mutex.hpp | 1 +
 include/checked_shared_mutex.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..8407e44 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been waiting for this request only
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..6c00aa6 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -301,6 +301,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been waiting for this request only
         return false;
       }
     }
-- 
2.43.0


From bde9caa8b9a5137c7f1ca395d430d185dd676e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 02/26] fix: withdraw the request of a writer refused by
 deadlock detection

checked::basic_shared_(timed_)mutex<WriterPrefer>::lock() left the thread
registered as a waiting writer when it threw, so no reader could ever
acquire the mutex again.
---
 include/checked_shared_mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 6c00aa6..8330095 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -117,6 +117,8 @@ protected:
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
+        RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been waiting for this request only
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
-- 
2.43.0


From 5a50b9214aee48ce3399d405ae75d90d8f8add79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 03/26] fix: deadlock validator forgets a refused request

The refused thread stayed in the waiters of the mutex it no longer waits
for: later requests were reported as deadlocks without any cycle, or
find_closepath() recursed without end through the stale edge.
---
 include/yamc_lock_validator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..e9fb749 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,7 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      remove_elem(table.mutexmap[mkey].waiters, tid);  // the request is refused
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From 45ca453c42dbccb8214277aeef7c8444c221b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 04/26] fix: no false deadlock through a waiter that was
 already notified

A thread stayed in the waiters of a mutex until it had woken up. If the
mutex was released and another thread acquired it (or the shared lock) in
between, a request of that thread for a mutex held by the notified one was
reported as a deadlock although the notified thread could proceed.
---
 include/checked_shared_mutex.hpp |  2 ++
 include/yamc_lock_validator.hpp  | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 8330095..3b62462 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -118,6 +118,7 @@ protected:
         std::abort();
 #else
         RwLockPolicy::after_wait_wlock(state_);
+        validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers may have been waiting for this request only
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
@@ -303,6 +304,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        detail::validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers may have been waiting for this request only
         return false;
       }
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index e9fb749..86cd64a 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -143,6 +143,9 @@ public:
   {
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].owners, tid);
+    if (table.mutexmap[mkey].owners.empty()) {
+      table.mutexmap[mkey].waiters.clear();  // all waiters are notified, see dequeue_all()
+    }
 #if YAMC_CHECK_VERBOSE
     std::cout << "Thread#" << tid << " released Mutex#" << table.mutexmap[mkey].mid
       << " " << (shared ? "shared-lock" : "lock") << '\n';
@@ -178,6 +181,13 @@ public:
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].waiters, tid);
   }
+
+  // all waiters of the mutex are notified: they enqueue again if they still have to wait
+  static void dequeue_all(uintptr_t mkey)
+  {
+    auto&& table = global_table();
+    table.mutexmap[mkey].waiters.clear();
+  }
 };
 
 
@@ -189,6 +199,7 @@ public:
   static void unlocked(uintptr_t, std::thread::id, bool) {}
   static bool enqueue(uintptr_t, std::thread::id, bool) { return true; }
   static void dequeue(uintptr_t, std::thread::id) {}
+  static void dequeue_all(uintptr_t) {}
 };
 
 
-- 
2.43.0


From 8235e6e899994830e6ae8aed6fc237d328141829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 05/26] fix: barrier::arrive_and_drop lowers the expected count
 whoever arrives last

The expected count of later phases was decremented only if the dropping
thread happened to be the last one to arrive, so that later phases waited
for the arrival of a thread which had dropped out.
---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..7e67194 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -142,8 +139,9 @@ public:
     assert(0 < counter_);
     auto arrival_phase = phase_;
     counter_ -= 1;
+    init_count_ -= 1;  // decrement expected count of all subsequent phases
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From 926faeb652c7fd58ef9fab49eac6bbb025d65acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 06/26] fix: accept deadlines before the epoch in POSIX
 wrappers

tv_nsec was negative then, which the native calls refuse with EINVAL:
posix::rwlock reported a timeout although the lock was free, and
posix::counting_semaphore threw.
---
 include/posix_native_mutex.hpp | 16 ++++++++++++++++
 include/posix_semaphore.hpp    |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 83314d7..6c03280 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -79,6 +79,10 @@ class native_mutex {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {  // before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_mutex_timedlock(&mtx_, &abs_timeout) == 0);
   }
 #endif
@@ -154,6 +158,10 @@ class native_recursive_mutex {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {  // before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_mutex_timedlock(&mtx_, &abs_timeout) == 0);
   }
 #endif
@@ -236,6 +244,10 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {  // before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedwrlock(&rwlock_, &abs_timeout) == 0);
   }
 
@@ -245,6 +257,10 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {  // before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedrdlock(&rwlock_, &abs_timeout) == 0);
   }
 #endif
diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..b60e8c6 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -87,6 +87,10 @@ class counting_semaphore {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {  // before the epoch
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
 
     errno = 0;
     if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-- 
2.43.0


From 12d458d66a8311db524a501838a03fdbc5fd3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 07/26] fix: POSIX semaphore operations survive signal handlers

sem_wait and sem_timedwait fail with EINTR if a signal handler ran; acquire
and the timed acquisitions threw system_error instead of going on waiting.
---
 include/posix_semaphore.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index b60e8c6..e9c5d80 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -93,12 +93,14 @@ class counting_semaphore {
     }
 
     errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT) {
+        return false;
+      } else if (errno != EINTR) {  // retry if interrupted by a signal handler
+        throw_errno("sem_timedwait");
+      }
     }
-    return false;
+    return true;
   }
 
 public:
@@ -137,8 +139,10 @@ public:
   void acquire()
   {
     errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR) {  // retry if interrupted by a signal handler
+        throw_errno("sem_wait");
+      }
     }
   }
 
-- 
2.43.0


From 429aa7f9b2dc1bac3ed3797e8f242b3b663395a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 08/26] fix: POSIX semaphore accepts any duration type and the
 end of time as deadline

Timed acquisitions did not compile with durations that do not convert
implicitly to system_clock::duration, and a far or past time point of
another clock overflowed when it was moved to system_clock.
---
 include/posix_semaphore.hpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index e9c5d80..5b3af46 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -52,20 +52,41 @@ namespace posix {
 
 namespace detail {
 
+/// convert to the resolution of system_clock, rounding up
+template<typename Duration>
+inline
+std::chrono::system_clock::duration
+to_system_duration(const Duration& d)
+{
+  using system_duration = std::chrono::system_clock::duration;
+  const auto result = std::chrono::duration_cast<system_duration>(d);
+  return (result < d) ? result + system_duration(1) : result;
+}
+
 template<typename Clock, typename Duration>
 inline
-std::chrono::time_point<std::chrono::system_clock, Duration>
+std::chrono::system_clock::time_point
 to_system_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
 {
-  return std::chrono::system_clock::now() + (tp - Clock::now());
+  using std::chrono::system_clock;
+  const auto now = Clock::now();
+  if (tp <= now) {
+    return system_clock::time_point();  // already expired
+  }
+  const auto rel_time = tp - now;
+  const auto sys_now = system_clock::now();
+  if ((system_clock::time_point::max)() - sys_now <= rel_time) {
+    return (system_clock::time_point::max)();  // not representable
+  }
+  return sys_now + to_system_duration(rel_time);
 }
 
 template<typename Duration>
 inline
-std::chrono::time_point<std::chrono::system_clock, Duration>
+std::chrono::system_clock::time_point
 to_system_timepoint(const std::chrono::time_point<std::chrono::system_clock, Duration>& tp)
 {
-  return tp;
+  return std::chrono::system_clock::time_point(to_system_duration(tp.time_since_epoch()));
 }
 
 } // namespace detail
@@ -156,7 +177,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use system_clock to convert from time_point to legacy time_t.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = std::chrono::system_clock::now() + detail::to_system_duration(rel_time);
     return do_try_acquirewait(tp);
   }
 
-- 
2.43.0


From aaa5ec37828d9bcbf29ba8f945a4796f3c49088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 09/26] fix: POSIX mutex wrappers accept any duration type

try_lock_for and try_lock_until did not compile with floating point or
finer durations, and the header did not include <type_traits>.
---
 include/posix_native_mutex.hpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 6c03280..70cdf86 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -27,6 +27,7 @@
 #define POSIX_NATIVE_MUTEX_HPP_
 
 #include <chrono>
+#include <type_traits>
 // POSIX(pthreads) mutex
 #include <pthread.h>
 #include <time.h>
@@ -63,6 +64,22 @@ namespace yamc {
  */
 namespace posix {
 
+namespace detail {
+
+/// convert to the resolution of system_clock, rounding up
+template<typename Duration>
+inline
+std::chrono::system_clock::duration
+to_mutex_timeout(const Duration& d)
+{
+  using system_duration = std::chrono::system_clock::duration;
+  const auto result = std::chrono::duration_cast<system_duration>(d);
+  return (result < d) ? result + system_duration(1) : result;
+}
+
+} // namespace detail
+
+
 class native_mutex {
 #if defined(PTHREAD_MUTEX_INITIALIZER)
   // POSIX.1 defines PTHREAD_MUTEX_INITIALIZER macro to initialize default mutex.
@@ -119,7 +136,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -127,7 +144,7 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lockwait(abs_time);
+    return do_try_lockwait(std::chrono::system_clock::time_point(detail::to_mutex_timeout(abs_time.time_since_epoch())));
   }
 #endif
 
@@ -207,7 +224,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -215,7 +232,7 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lockwait(abs_time);
+    return do_try_lockwait(std::chrono::system_clock::time_point(detail::to_mutex_timeout(abs_time.time_since_epoch())));
   }
 #endif // YAMC_POSIX_TIMEOUT_SUPPORTED
 
@@ -311,7 +328,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -319,7 +336,7 @@ public:
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lockwait(abs_time);
+    return do_try_lockwait(std::chrono::system_clock::time_point(detail::to_mutex_timeout(abs_time.time_since_epoch())));
   }
 
   template<typename Rep, typename Period>
@@ -327,7 +344,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + rel_time;
+    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
     return do_try_lock_sharedwait(tp);
   }
 
@@ -335,7 +352,7 @@ public:
   bool try_lock_shared_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     static_assert(std::is_same<Clock, std::chrono::system_clock>::value, "support only system_clock");
-    return do_try_lock_sharedwait(abs_time);
+    return do_try_lock_sharedwait(std::chrono::system_clock::time_point(detail::to_mutex_timeout(abs_time.time_since_epoch())));
   }
 #endif // YAMC_POSIX_TIMEOUT_SUPPORTED
 
-- 
2.43.0


From 8ff968f7962b6d85e1fd5f4262717a9144cd8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 10/26] fix: shared_lock::unlock without a mutex throws instead
 of asserting

std::shared_lock throws system_error(operation_not_permitted) whenever
the lock is not owned, also if there is no associated mutex.
---
 include/yamc_shared_lock.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..7c62b44 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,7 +159,6 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
-- 
2.43.0


From 227e64d3f72cc1973c28d9788435a4519bd44e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 11/26] fix: self-move assignment of shared_lock keeps the lock

As std::shared_lock does, see LWG 4172; the lock was released and the
mutex forgotten.
---
 include/yamc_shared_lock.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 7c62b44..92c9de7 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -120,6 +120,9 @@ public:
 
   shared_lock& operator=(shared_lock&& rhs) noexcept
   {
+    if (this == &rhs) {
+      return *this;
+    }
     if (pm_ && owns_) {
       pm_->unlock_shared();
     }
-- 
2.43.0


From e42458e0921533a2e0f6b2813172828df24cc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 12/26] fix: latch and barrier accept an initial count of max()

---
 include/yamc_barrier.hpp | 2 +-
 include/yamc_latch.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 7e67194..d27bc2d 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -87,7 +87,7 @@ public:
     , counter_(expected)
     , completion_(std::move(f))
   {
-    assert(0 <= expected && expected < (max()));
+    assert(0 <= expected && expected <= (max)());
   }
 
   ~barrier() = default;
diff --git a/include/yamc_latch.hpp b/include/yamc_latch.hpp
index 5503c20..db6a3c4 100644
--- a/include/yamc_latch.hpp
+++ b/include/yamc_latch.hpp
@@ -54,7 +54,7 @@ public:
   /*constexpr*/ explicit latch(std::ptrdiff_t expected)
     : counter_(expected)
   {
-    assert(0 <= expected && expected < (max)());
+    assert(0 <= expected && expected <= (max)());
   }
 
   ~latch() = default;
-- 
2.43.0


From 4708d0f974ee0fc2e99cbbbbebf3a4b58bead36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 13/26] fix: barrier survives the wrap-around of its phase
 counter

After 2^32 phases the counter is less than the phase of arrival, so that
the threads of the last phase before the wrap-around waited forever.
---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index d27bc2d..ad4b0c2 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From b950bdbb9ddd34416147d97210d5a8403aae46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 14/26] fix: fair_shared_mutex.hpp includes <cassert>

---
 include/fair_shared_mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fair_shared_mutex.hpp b/include/fair_shared_mutex.hpp
index 857b06c..66d4440 100644
--- a/include/fair_shared_mutex.hpp
+++ b/include/fair_shared_mutex.hpp
@@ -26,6 +26,7 @@
 #ifndef YAMC_FAIR_SHARED_MUTEX_HPP_
 #define YAMC_FAIR_SHARED_MUTEX_HPP_
 
+#include <cassert>
 #include <chrono>
 #include <condition_variable>
 #include <mutex>
-- 
2.43.0


From ef57c23e2fbc7dcfbf64358e404f378d635275e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 15/26] fix: relative timeouts of any duration type and size

The sum of steady_clock::now() and a duration was computed in their common
type: with float it lost milliseconds to seconds, with picoseconds or
hours::max() it overflowed, so that a call gave up early or spun forever.
---
 include/alternate_mutex.hpp        |  5 ++-
 include/alternate_shared_mutex.hpp |  5 ++-
 include/checked_mutex.hpp          |  5 ++-
 include/checked_shared_mutex.hpp   |  5 ++-
 include/fair_mutex.hpp             |  5 ++-
 include/fair_shared_mutex.hpp      |  5 ++-
 include/posix_native_mutex.hpp     |  9 +++--
 include/posix_semaphore.hpp        |  3 +-
 include/yamc_semaphore.hpp         |  3 +-
 include/yamc_timeout.hpp           | 61 ++++++++++++++++++++++++++++++
 10 files changed, 88 insertions(+), 18 deletions(-)
 create mode 100644 include/yamc_timeout.hpp

diff --git a/include/alternate_mutex.hpp b/include/alternate_mutex.hpp
index 80e3675..467375c 100644
--- a/include/alternate_mutex.hpp
+++ b/include/alternate_mutex.hpp
@@ -32,6 +32,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include "yamc_timeout.hpp"
 
 
 namespace yamc {
@@ -161,7 +162,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
@@ -257,7 +258,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 8407e44..f7238eb 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -31,6 +31,7 @@
 #include <condition_variable>
 #include <mutex>
 #include "yamc_rwlock_sched.hpp"
+#include "yamc_timeout.hpp"
 
 
 namespace yamc {
@@ -190,7 +191,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
@@ -207,7 +208,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lock_sharedwait(tp);
   }
 
diff --git a/include/checked_mutex.hpp b/include/checked_mutex.hpp
index a95597d..5e9257f 100644
--- a/include/checked_mutex.hpp
+++ b/include/checked_mutex.hpp
@@ -34,6 +34,7 @@
 #include <system_error>
 #include <thread>
 #include "yamc_lock_validator.hpp"
+#include "yamc_timeout.hpp"
 
 
 // call std::abort() when requirements violation
@@ -319,7 +320,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp, "recursive try_lock_for");
   }
 
@@ -403,7 +404,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp);
   }
 
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 3b62462..88af98f 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -36,6 +36,7 @@
 #include <vector>
 #include "yamc_rwlock_sched.hpp"
 #include "yamc_lock_validator.hpp"
+#include "yamc_timeout.hpp"
 
 
 // call std::abort() when requirements violation
@@ -365,7 +366,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lockwait(tp, "recursive try_lock_for");
   }
 
@@ -382,7 +383,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return do_try_lock_sharedwait(tp, "recursive try_lock_shared_for");
   }
 
diff --git a/include/fair_mutex.hpp b/include/fair_mutex.hpp
index 9433cc3..d4d7381 100644
--- a/include/fair_mutex.hpp
+++ b/include/fair_mutex.hpp
@@ -31,6 +31,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include "yamc_timeout.hpp"
 
 
 namespace yamc {
@@ -293,7 +294,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     auto lk = impl_.internal_lock();
     return impl_.impl_try_lockwait(lk, tp);
   }
@@ -362,7 +363,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     return try_lock_until(tp);  // delegate
   }
 
diff --git a/include/fair_shared_mutex.hpp b/include/fair_shared_mutex.hpp
index 66d4440..3240276 100644
--- a/include/fair_shared_mutex.hpp
+++ b/include/fair_shared_mutex.hpp
@@ -31,6 +31,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include "yamc_timeout.hpp"
 
 
 /// default shared_mutex rwlock fairness policy
@@ -466,7 +467,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     return base::impl_try_lockwait(lk, tp);
   }
@@ -499,7 +500,7 @@ public:
   template<typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& duration)
   {
-    const auto tp = std::chrono::steady_clock::now() + duration;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(duration);
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     return base::impl_try_lockwait_shared(lk, tp);
   }
diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 70cdf86..6dd29ab 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -31,6 +31,7 @@
 // POSIX(pthreads) mutex
 #include <pthread.h>
 #include <time.h>
+#include "yamc_timeout.hpp"
 
 
 #if defined(__APPLE__)
@@ -136,7 +137,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
+    const auto tp = yamc::detail::timeout_after<std::chrono::system_clock>(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -224,7 +225,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
+    const auto tp = yamc::detail::timeout_after<std::chrono::system_clock>(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -328,7 +329,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
+    const auto tp = yamc::detail::timeout_after<std::chrono::system_clock>(rel_time);
     return do_try_lockwait(tp);
   }
 
@@ -344,7 +345,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use std::chrono::system_clock which may or may not be steady.
-    const auto tp = std::chrono::system_clock::now() + detail::to_mutex_timeout(rel_time);
+    const auto tp = yamc::detail::timeout_after<std::chrono::system_clock>(rel_time);
     return do_try_lock_sharedwait(tp);
   }
 
diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 5b3af46..ffb39c6 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -35,6 +35,7 @@
 #include <limits.h>  // SEM_VALUE_MAX
 #include <semaphore.h>
 #include <time.h>    // timespec struct
+#include "yamc_timeout.hpp"
 
 
 namespace yamc {
@@ -177,7 +178,7 @@ public:
   {
     // C++ Standard says '_for'-suffixed timeout function shall use steady clock,
     // but we use system_clock to convert from time_point to legacy time_t.
-    const auto tp = std::chrono::system_clock::now() + detail::to_system_duration(rel_time);
+    const auto tp = yamc::detail::timeout_after<std::chrono::system_clock>(rel_time);
     return do_try_acquirewait(tp);
   }
 
diff --git a/include/yamc_semaphore.hpp b/include/yamc_semaphore.hpp
index 3ba2059..98d6cfd 100644
--- a/include/yamc_semaphore.hpp
+++ b/include/yamc_semaphore.hpp
@@ -32,6 +32,7 @@
 #include <condition_variable>
 #include <limits>
 #include <mutex>
+#include "yamc_timeout.hpp"
 
 
 /// default least_max_value of yamc::counting_semaphore
@@ -121,7 +122,7 @@ public:
   template<class Rep, class Period>
   bool try_acquire_for(const std::chrono::duration<Rep, Period>& rel_time)
   {
-    const auto tp = std::chrono::steady_clock::now() + rel_time;
+    const auto tp = yamc::detail::timeout_after<std::chrono::steady_clock>(rel_time);
     return do_try_acquirewait(tp);
   }
 
diff --git a/include/yamc_timeout.hpp b/include/yamc_timeout.hpp
new file mode 100644
index 0000000..efa9f46
--- /dev/null
+++ b/include/yamc_timeout.hpp
@@ -0,0 +1,61 @@
+/*
+ * yamc_timeout.hpp
+ *
+ * MIT License
+ *
+ * Copyright (c) 2019 yohhoy
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is
+ * furnished to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+ * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+ * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+ * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+ * OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+ * SOFTWARE.
+ */
+#ifndef YAMC_TIMEOUT_HPP_
+#define YAMC_TIMEOUT_HPP_
+
+#include <chrono>
+
+
+namespace yamc {
+
+namespace detail {
+
+/// Clock's time point `rel_time` from now on (internal use only)
+///
+/// The timeout of any duration type is rounded up to a tick of Clock before it is added to
+/// the current time, adding first would be done with precision and range of that type.
+template<typename Clock, typename Rep, typename Period>
+inline
+typename Clock::time_point
+timeout_after(const std::chrono::duration<Rep, Period>& rel_time)
+{
+  using namespace std::chrono;
+  using clock_duration = typename Clock::duration;
+  if (rel_time <= rel_time.zero()) {
+    return typename Clock::time_point();  // already expired
+  }
+  const auto now = Clock::now();
+  if (duration<double>((Clock::time_point::max)() - now) <= duration<double>(rel_time)) {
+    return (Clock::time_point::max)();  // not representable
+  }
+  const auto ticks = duration_cast<clock_duration>(rel_time);
+  return now + ((ticks < rel_time) ? ticks + clock_duration(1) : ticks);
+}
+
+} // namespace detail
+} // namespace yamc
+
+#endif
-- 
2.43.0


From acb7c09ace20661b740ded40dc8ca158f5cec6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 16/26] fix: win::native_mutex::native_handle() returns the
 handle, not its address

---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..275f9fb 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -142,7 +142,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From 1203d7d80d318d274e6139f51cbacc8d448ccb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 17/26] fix: win: expired and very long timeouts

A timeout before now wrapped to about 49 days, one of 2^32 milliseconds or
more was cut to the remainder (or became INFINITE), and the rounding up
overflowed near the limits of the duration type.
---
 include/gcd_semaphore.hpp    |  1 +
 include/win_native_mutex.hpp | 17 +++++++++++++----
 include/win_semaphore.hpp    | 17 +++++++++++++----
 include/yamc_timeout.hpp     | 27 +++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/include/gcd_semaphore.hpp b/include/gcd_semaphore.hpp
index f0b86d7..e2b292a 100644
--- a/include/gcd_semaphore.hpp
+++ b/include/gcd_semaphore.hpp
@@ -32,6 +32,7 @@
 #include <limits>
 #include <system_error>
 #include <type_traits>
+#include "yamc_timeout.hpp"
 // Grand Central Dispatch (GCD)
 #include <dispatch/dispatch.h>
 
diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 275f9fb..e2e387e 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -28,6 +28,7 @@
 
 #include <chrono>
 #include <system_error>
+#include "yamc_timeout.hpp"
 // Windows mutex
 #include <windows.h>
 
@@ -66,10 +67,18 @@ class native_mutex {
   template<class Rep, class Period>
   bool do_try_lockwait(const std::chrono::duration<Rep, Period>& timeout)
   {
-    using namespace std::chrono;
+    using std::chrono::milliseconds;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    milliseconds remain = detail::timeout_cast<milliseconds>(timeout);
+    // longer timeout than DWORD can express is divided, INFINITE(0xFFFFFFFF) means no timeout
+    const milliseconds max_wait(0xFFFFFFFE);
+    DWORD timeout_in_msec;
+    DWORD result;
+    do {
+      timeout_in_msec = static_cast<DWORD>((remain < max_wait ? remain : max_wait).count());
+      result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+      remain -= milliseconds(timeout_in_msec);
+    } while (result == WAIT_TIMEOUT && milliseconds::zero() < remain);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
@@ -131,7 +140,7 @@ public:
   template<class Clock, class Duration>
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
-    return do_try_lockwait(abs_time - Clock::now());
+    return do_try_lockwait(detail::timeout_until(abs_time));
   }
 
   void unlock()
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..17feaa7 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -30,6 +30,7 @@
 #include <cstddef>
 #include <chrono>
 #include <system_error>
+#include "yamc_timeout.hpp"
 // Windows semaphore
 #include <windows.h>
 
@@ -69,10 +70,18 @@ class counting_semaphore {
   template<class Rep, class Period>
   bool do_try_acquirewait(const std::chrono::duration<Rep, Period>& timeout)
   {
-    using namespace std::chrono;
+    using std::chrono::milliseconds;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    milliseconds remain = detail::timeout_cast<milliseconds>(timeout);
+    // longer timeout than DWORD can express is divided, INFINITE(0xFFFFFFFF) means no timeout
+    const milliseconds max_wait(0xFFFFFFFE);
+    DWORD timeout_in_msec;
+    DWORD result;
+    do {
+      timeout_in_msec = static_cast<DWORD>((remain < max_wait ? remain : max_wait).count());
+      result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+      remain -= milliseconds(timeout_in_msec);
+    } while (result == WAIT_TIMEOUT && milliseconds::zero() < remain);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
@@ -156,7 +165,7 @@ public:
   bool try_acquire_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
-    return do_try_acquirewait(abs_time - Clock::now());
+    return do_try_acquirewait(detail::timeout_until(abs_time));
   }
 };
 
diff --git a/include/yamc_timeout.hpp b/include/yamc_timeout.hpp
index efa9f46..826485b 100644
--- a/include/yamc_timeout.hpp
+++ b/include/yamc_timeout.hpp
@@ -55,6 +55,33 @@ timeout_after(const std::chrono::duration<Rep, Period>& rel_time)
   return now + ((ticks < rel_time) ? ticks + clock_duration(1) : ticks);
 }
 
+/// Relative timeout as ToDuration, rounded up and limited to [0, ToDuration::max()] (internal use only)
+template<typename ToDuration, typename Rep, typename Period>
+inline
+ToDuration
+timeout_cast(const std::chrono::duration<Rep, Period>& rel_time)
+{
+  using namespace std::chrono;
+  if (rel_time <= rel_time.zero()) {
+    return ToDuration::zero();
+  }
+  if (duration<double>((ToDuration::max)()) <= duration<double>(rel_time)) {
+    return (ToDuration::max)();
+  }
+  const auto ticks = duration_cast<ToDuration>(rel_time);
+  return (ticks < rel_time) ? ticks + ToDuration(1) : ticks;
+}
+
+/// Time left until the time point, never negative (internal use only)
+template<typename Clock, typename Duration>
+inline
+auto
+timeout_until(const std::chrono::time_point<Clock, Duration>& abs_time) -> decltype(abs_time - Clock::now())
+{
+  const auto now = Clock::now();
+  return (now < abs_time) ? abs_time - now : decltype(abs_time - now)::zero();
+}
+
 } // namespace detail
 } // namespace yamc
 
-- 
2.43.0


From 15db0d5dec9288a21b6c16d36ad9cc65c25f7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 18/26] fix: win::counting_semaphore::release(0) does nothing

---
 include/win_semaphore.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 17feaa7..36eb275 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -130,6 +130,9 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0) {
+      return;  // ReleaseSemaphore() takes positive count only
+    }
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0


From e0ed207347c48422c1cc497841563a0d78ae7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 19/26] fix: gcd::counting_semaphore: timeouts near the epoch
 and at the end of time

A deadline at the UNIX epoch meant forever, a far deadline of another clock
overflowed and timed out at once, so did a relative timeout beyond the range
of nanoseconds.
---
 include/gcd_semaphore.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/gcd_semaphore.hpp b/include/gcd_semaphore.hpp
index e2b292a..eadf0c6 100644
--- a/include/gcd_semaphore.hpp
+++ b/include/gcd_semaphore.hpp
@@ -58,8 +58,12 @@ int64_t
 from_unix_epoch(const std::chrono::time_point<Clock, Duration>& tp)
 {
   using namespace std::chrono;
-  auto rel_time = tp - Clock::now();
-  return duration_cast<nanoseconds>((system_clock::now() + rel_time).time_since_epoch()).count();
+  nanoseconds rel_time = yamc::detail::timeout_cast<nanoseconds>(yamc::detail::timeout_until(tp));
+  nanoseconds now = duration_cast<nanoseconds>(system_clock::now().time_since_epoch());
+  if ((nanoseconds::max)() - now <= rel_time) {
+    return (nanoseconds::max)().count();  // not representable
+  }
+  return (now + rel_time).count();
 }
 
 template<typename Duration>
@@ -70,7 +74,18 @@ from_unix_epoch(const std::chrono::time_point<std::chrono::system_clock, Duratio
   // Until C++20, the epoch of std::chrono::system_clock is unspecified,
   // but most implementation use UNIX epoch (19700101T000000Z).
   using namespace std::chrono;
-  return duration_cast<nanoseconds>(tp.time_since_epoch()).count();
+  return yamc::detail::timeout_cast<nanoseconds>(tp.time_since_epoch()).count();
+}
+
+template<typename Clock, typename Duration>
+inline
+::dispatch_time_t
+to_walltime(const std::chrono::time_point<Clock, Duration>& tp)
+{
+  const struct ::timespec unix_epoch = { 0, 0 };
+  const int64_t nsec = from_unix_epoch(tp);
+  // dispatch_walltime() yields DISPATCH_TIME_FOREVER for the UNIX epoch
+  return (nsec <= 1) ? DISPATCH_TIME_NOW : ::dispatch_walltime(&unix_epoch, nsec);
 }
 
 } // namespace detail
@@ -145,7 +160,7 @@ public:
   {
     using namespace std::chrono;
     validate_native_handle("counting_semaphore::try_acquire_for");
-    int64_t delta = duration_cast<nanoseconds>(rel_time).count();
+    int64_t delta = yamc::detail::timeout_cast<nanoseconds>(rel_time).count();
     auto timeout = ::dispatch_time(DISPATCH_TIME_NOW, delta);
 
     long result = ::dispatch_semaphore_wait(dsema_, timeout);
@@ -161,8 +176,7 @@ public:
   bool try_acquire_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
-    const struct ::timespec unix_epoch = { 0, 0 };
-    auto timeout = ::dispatch_walltime(&unix_epoch, detail::from_unix_epoch(abs_time));
+    auto timeout = detail::to_walltime(abs_time);
 
     long result = ::dispatch_semaphore_wait(dsema_, timeout);
     if (result != KERN_SUCCESS && result != KERN_OPERATION_TIMED_OUT) {
-- 
2.43.0


From 8ceef4b6b8f6909704288efe6bfd38287ca1e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 20/26] fix: timeouts of float durations are converted with
 double

duration_cast of a large duration<float> rounded up beyond the range of the
clock's ticks.
---
 include/yamc_timeout.hpp | 47 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/include/yamc_timeout.hpp b/include/yamc_timeout.hpp
index 826485b..3bcaaf7 100644
--- a/include/yamc_timeout.hpp
+++ b/include/yamc_timeout.hpp
@@ -27,34 +27,13 @@
 #define YAMC_TIMEOUT_HPP_
 
 #include <chrono>
+#include <type_traits>
 
 
 namespace yamc {
 
 namespace detail {
 
-/// Clock's time point `rel_time` from now on (internal use only)
-///
-/// The timeout of any duration type is rounded up to a tick of Clock before it is added to
-/// the current time, adding first would be done with precision and range of that type.
-template<typename Clock, typename Rep, typename Period>
-inline
-typename Clock::time_point
-timeout_after(const std::chrono::duration<Rep, Period>& rel_time)
-{
-  using namespace std::chrono;
-  using clock_duration = typename Clock::duration;
-  if (rel_time <= rel_time.zero()) {
-    return typename Clock::time_point();  // already expired
-  }
-  const auto now = Clock::now();
-  if (duration<double>((Clock::time_point::max)() - now) <= duration<double>(rel_time)) {
-    return (Clock::time_point::max)();  // not representable
-  }
-  const auto ticks = duration_cast<clock_duration>(rel_time);
-  return now + ((ticks < rel_time) ? ticks + clock_duration(1) : ticks);
-}
-
 /// Relative timeout as ToDuration, rounded up and limited to [0, ToDuration::max()] (internal use only)
 template<typename ToDuration, typename Rep, typename Period>
 inline
@@ -62,16 +41,38 @@ ToDuration
 timeout_cast(const std::chrono::duration<Rep, Period>& rel_time)
 {
   using namespace std::chrono;
+  // conversion of float is done with double, it may round up beyond the limit
+  using wide_rep = typename std::conditional<treat_as_floating_point<Rep>::value, std::common_type<Rep, double>, std::common_type<Rep>>::type::type;
   if (rel_time <= rel_time.zero()) {
     return ToDuration::zero();
   }
   if (duration<double>((ToDuration::max)()) <= duration<double>(rel_time)) {
     return (ToDuration::max)();
   }
-  const auto ticks = duration_cast<ToDuration>(rel_time);
+  const auto ticks = duration_cast<ToDuration>(duration<wide_rep, Period>(rel_time));
   return (ticks < rel_time) ? ticks + ToDuration(1) : ticks;
 }
 
+/// Clock's time point `rel_time` from now on (internal use only)
+///
+/// The timeout of any duration type is rounded up to a tick of Clock before it is added to
+/// the current time, adding first would be done with precision and range of that type.
+template<typename Clock, typename Rep, typename Period>
+inline
+typename Clock::time_point
+timeout_after(const std::chrono::duration<Rep, Period>& rel_time)
+{
+  const auto timeout = timeout_cast<typename Clock::duration>(rel_time);
+  if (timeout <= timeout.zero()) {
+    return typename Clock::time_point();  // already expired
+  }
+  const auto now = Clock::now();
+  if ((Clock::time_point::max)() - now <= timeout) {
+    return (Clock::time_point::max)();  // not representable
+  }
+  return now + timeout;
+}
+
 /// Time left until the time point, never negative (internal use only)
 template<typename Clock, typename Duration>
 inline
-- 
2.43.0


From ccd799ee2dddd53445f60397667cb8269f6d456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 21/26] fix: checked mutexes: a call that runs out of memory
 acquires nothing

If the deadlock detection's table could not be extended, lock() and the
other acquiring calls threw std::bad_alloc but left the mutex owned (or a
writer's request counted), which no later call could undo.
---
 include/checked_mutex.hpp        | 12 +++----
 include/checked_shared_mutex.hpp | 60 +++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/include/checked_mutex.hpp b/include/checked_mutex.hpp
index 5e9257f..9c2766f 100644
--- a/include/checked_mutex.hpp
+++ b/include/checked_mutex.hpp
@@ -113,8 +113,8 @@ protected:
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
-    owner_ = tid;
     validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
   }
 
   bool try_lock()
@@ -132,8 +132,8 @@ protected:
     if (owner_ != std::thread::id()) {
       return false;
     }
-    owner_ = tid;
     validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
     return true;
   }
 
@@ -198,9 +198,9 @@ protected:
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
     assert(owner_ == std::thread::id());
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     ncount_ = 1;
     owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
   }
 
   bool try_lock()
@@ -213,9 +213,9 @@ protected:
     }
     if (ncount_ == 0) {
       assert(owner_ == std::thread::id());
+      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
       ncount_ = 1;
       owner_ = tid;
-      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
       return true;
     }
     return false;
@@ -293,8 +293,8 @@ class timed_mutex : private detail::mutex_base {
         return false;
       }
     }
-    owner_ = tid;
     detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
     return true;
   }
 
@@ -376,9 +376,9 @@ class recursive_timed_mutex : private detail::recursive_mutex_base {
       }
     }
     assert(owner_ == std::thread::id());
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     ncount_ = 1;
     owner_ = tid;
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 88af98f..3e5aa6c 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -85,6 +85,36 @@ protected:
     return std::find(s_owner_.begin(), s_owner_.end(), tid) != s_owner_.end();
   }
 
+  // request for exclusive lock, withdrawn unless it is granted
+  class wlock_request {
+    shared_mutex_base& m_;
+    bool granted_ = false;
+
+  public:
+    explicit wlock_request(shared_mutex_base& m) : m_(m)
+    {
+      RwLockPolicy::before_wait_wlock(m_.state_);
+    }
+
+    ~wlock_request()
+    {
+      if (!granted_) {
+        RwLockPolicy::after_wait_wlock(m_.state_);
+        validator::dequeue_all(reinterpret_cast<uintptr_t>(&m_));
+        m_.cv_.notify_all();  // readers may have been waiting for this request only
+      }
+    }
+
+    wlock_request(const wlock_request&) = delete;
+    wlock_request& operator=(const wlock_request&) = delete;
+
+    void granted()
+    {
+      RwLockPolicy::after_wait_wlock(m_.state_);
+      granted_ = true;
+    }
+  };
+
   void dtor_precondition(const char* emsg)
   {
     std::lock_guard<decltype(mtx_)> lk(mtx_);
@@ -111,26 +141,23 @@ protected:
       throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "recursive lock");
 #endif
     }
-    RwLockPolicy::before_wait_wlock(state_);
+    wlock_request request(*this);
     while (RwLockPolicy::wait_wlock(state_)) {
       if (!validator::enqueue(reinterpret_cast<uintptr_t>(this), tid, false)) {
         // deadlock detection
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
-        RwLockPolicy::after_wait_wlock(state_);
-        validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
-        cv_.notify_all();  // readers may have been waiting for this request only
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
-    RwLockPolicy::after_wait_wlock(state_);
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    request.granted();
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
   }
 
   bool try_lock()
@@ -147,9 +174,9 @@ protected:
     }
     if (RwLockPolicy::wait_wlock(state_))
       return false;
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
@@ -195,9 +222,10 @@ protected:
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
+    s_owner_.reserve(s_owner_.size() + 1);
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     RwLockPolicy::acquire_rlock(state_);
     s_owner_.push_back(tid);
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
   }
 
   bool try_lock_shared()
@@ -214,9 +242,10 @@ protected:
     }
     if (RwLockPolicy::wait_rlock(state_))
       return false;
+    s_owner_.reserve(s_owner_.size() + 1);
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     RwLockPolicy::acquire_rlock(state_);
     s_owner_.push_back(tid);
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     return true;
   }
 
@@ -284,6 +313,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
   using base::s_owner_;
   using base::cv_;
   using base::mtx_;
+  using typename base::wlock_request;
 
   template<typename Clock, typename Duration>
   bool do_try_lockwait(const std::chrono::time_point<Clock, Duration>& tp, const char* emsg)
@@ -299,21 +329,18 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
       throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), emsg);
 #endif
     }
-    RwLockPolicy::before_wait_wlock(state_);
+    wlock_request request(*this);
     while (RwLockPolicy::wait_wlock(state_)) {
       if (cv_.wait_until(lk, tp) == std::cv_status::timeout) {
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
-        RwLockPolicy::after_wait_wlock(state_);
-        detail::validator::dequeue_all(reinterpret_cast<uintptr_t>(this));
-        cv_.notify_all();  // readers may have been waiting for this request only
         return false;
       }
     }
-    RwLockPolicy::after_wait_wlock(state_);
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    request.granted();
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
@@ -338,9 +365,10 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         return false;
       }
     }
+    s_owner_.reserve(s_owner_.size() + 1);
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     RwLockPolicy::acquire_rlock(state_);
     s_owner_.push_back(tid);
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
     return true;
   }
 
-- 
2.43.0


From 072e76089936716b26ce31b47b322becf9e23e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 22/26] fix: posix: lock() and lock_shared() report a failure
 of the native call

pthread_mutex_lock() fails with EAGAIN at the maximum depth of a recursive
mutex, pthread_rwlock_rdlock() at the maximum number of readers. The result
was ignored, so the caller believed to hold a lock it did not have.
---
 include/posix_native_mutex.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 6dd29ab..17f93db 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -27,6 +27,7 @@
 #define POSIX_NATIVE_MUTEX_HPP_
 
 #include <chrono>
+#include <system_error>
 #include <type_traits>
 // POSIX(pthreads) mutex
 #include <pthread.h>
@@ -78,6 +79,15 @@ to_mutex_timeout(const Duration& d)
   return (result < d) ? result + system_duration(1) : result;
 }
 
+/// throw if lock operation failed, for instance at the maximum number of recursive or shared locks
+inline
+void
+throw_on_error(int error, const char* what_arg)
+{
+  if (error != 0)
+    throw std::system_error(std::error_code(error, std::generic_category()), what_arg);
+}
+
 } // namespace detail
 
 
@@ -118,7 +128,7 @@ public:
 
   void lock()
   {
-    ::pthread_mutex_lock(&mtx_);
+    detail::throw_on_error(::pthread_mutex_lock(&mtx_), "pthread_mutex_lock");
   }
 
   bool try_lock()
@@ -206,7 +216,7 @@ public:
 
   void lock()
   {
-    ::pthread_mutex_lock(&mtx_);
+    detail::throw_on_error(::pthread_mutex_lock(&mtx_), "pthread_mutex_lock");
   }
 
   bool try_lock()
@@ -295,7 +305,7 @@ public:
 
   void lock()
   {
-    ::pthread_rwlock_wrlock(&rwlock_);
+    detail::throw_on_error(::pthread_rwlock_wrlock(&rwlock_), "pthread_rwlock_wrlock");
   }
 
   bool try_lock()
@@ -310,7 +320,7 @@ public:
 
   void lock_shared()
   {
-    ::pthread_rwlock_rdlock(&rwlock_);
+    detail::throw_on_error(::pthread_rwlock_rdlock(&rwlock_), "pthread_rwlock_rdlock");
   }
 
   bool try_lock_shared()
@@ -385,7 +395,7 @@ public:
 
   void lock()
   {
-    ::pthread_spin_lock(&slock_);
+    detail::throw_on_error(::pthread_spin_lock(&slock_), "pthread_spin_lock");
   }
 
   bool try_lock()
-- 
2.43.0


From 7fab812d8170fd22342bf5660d6b803f3d3ba183 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 23/26] fix: checked mutexes: the table of the deadlock
 detection is never destroyed

A mutex that is used after the table's destructor has run (one that is never
destroyed, or from a thread still running while the program exits) accessed
freed memory.
---
 include/yamc_lock_validator.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 86cd64a..9515ece 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -67,10 +67,14 @@ private:
 
   static table_ref global_table()
   {
-    static std::mutex global_guard;
-    static mutexmap_type global_mutexmap;
-    static std::size_t global_counter = 0;
-    return { std::unique_lock<std::mutex>(global_guard), global_mutexmap, global_counter };
+    struct table {
+      std::mutex guard;
+      mutexmap_type mutexmap;
+      std::size_t counter = 0;
+    };
+    // never destroyed: mutexes may be used until the very end of the program
+    static table& global = *new table();
+    return { std::unique_lock<std::mutex>(global.guard), global.mutexmap, global.counter };
   }
 
   template <typename T>
-- 
2.43.0


From 64fe328230bc45d549fbdd51b0401e04a115b577 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 24/26] fix: checked mutexes: deadlock detection visits each
 thread once

With shared locks there can be exponentially many paths from a thread to the
threads that wait for it; the search followed all of them, holding the lock of
the global table.
---
 include/yamc_lock_validator.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 9515ece..b7a569c 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -85,14 +85,17 @@ private:
 
   static bool find_closepath(const mutexmap_type& mutexmap, uintptr_t end_mkey, std::thread::id tid)
   {
-    for (const auto& e : mutexmap) {
-      if (std::find(e.second.owners.begin(), e.second.owners.end(), tid) == e.second.owners.end())
-        continue;
-      if (e.first == end_mkey)
-        return true;  // found close path
-      for (const auto& next_tid : e.second.waiters) {
-        if (find_closepath(mutexmap, end_mkey, next_tid)) {
-          return true;
+    std::vector<std::thread::id> reached(1, tid);  // visit each thread once
+    for (std::size_t i = 0; i < reached.size(); ++i) {
+      for (const auto& e : mutexmap) {
+        if (std::find(e.second.owners.begin(), e.second.owners.end(), reached[i]) == e.second.owners.end())
+          continue;
+        if (e.first == end_mkey)
+          return true;  // found close path
+        for (const auto& next_tid : e.second.waiters) {
+          if (std::find(reached.begin(), reached.end(), next_tid) == reached.end()) {
+            reached.push_back(next_tid);
+          }
         }
       }
     }
@@ -162,8 +165,9 @@ public:
   static bool enqueue(uintptr_t mkey, std::thread::id tid, bool shared)
   {
     auto&& table = global_table();
+    const bool deadlock = find_closepath(table.mutexmap, mkey, tid);
     table.mutexmap[mkey].waiters.push_back(tid);
-    if (find_closepath(table.mutexmap, mkey, tid)) {
+    if (deadlock) {
       // detect deadlock
       std::cout << "Thread#" << tid << " wait for Mutex#" << table.mutexmap[mkey].mid
         << " " << (shared ? "shared-lock" : "lock") << '\n';
-- 
2.43.0


From 9a634b3306b240c52a5178b686ad5e8f436092ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 25/26] fix: posix semaphore: deadlines in units finer than the
 system clock's never expired

The limit of system_clock, converted to such a unit, overflowed.
---
 include/posix_semaphore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index ffb39c6..11ba048 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -74,12 +74,12 @@ to_system_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
   if (tp <= now) {
     return system_clock::time_point();  // already expired
   }
-  const auto rel_time = tp - now;
+  const auto rel_time = yamc::detail::timeout_cast<system_clock::duration>(tp - now);
   const auto sys_now = system_clock::now();
   if ((system_clock::time_point::max)() - sys_now <= rel_time) {
     return (system_clock::time_point::max)();  // not representable
   }
-  return sys_now + to_system_duration(rel_time);
+  return sys_now + rel_time;
 }
 
 template<typename Duration>
-- 
2.43.0


From 750b5d5efcf3cfd914ec6f5fca8882a5ef0487f5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 26/26] fix: posix: a recursive mutex whose native mutex cannot
 be made throws

---
 include/posix_native_mutex.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 17f93db..69c6229 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -199,10 +199,12 @@ public:
   {
 #if !defined(PTHREAD_RECURSIVE_MUTEX_INITIALIZER) && !defined(PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP)
     ::pthread_mutexattr_t attr;
-    ::pthread_mutexattr_init(&attr);
-    ::pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
-    ::pthread_mutex_init(&mtx_, &attr);
+    detail::throw_on_error(::pthread_mutexattr_init(&attr), "pthread_mutexattr_init");
+    int result = ::pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+    if (result == 0)
+      result = ::pthread_mutex_init(&mtx_, &attr);
     ::pthread_mutexattr_destroy(&attr);
+    detail::throw_on_error(result, "pthread_mutex_init");
 #endif
   }
 
-- 
2.43.0

