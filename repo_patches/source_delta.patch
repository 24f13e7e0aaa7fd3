From 0bc96a627bd4ac38b72dadefa942b5e6d29877b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 01/40] fix: Thread leaves the task to its thread, never
 touches a joined handle and can be started again after a failed start

---
 .../include/ecl/threads/thread_pos.hpp        | 77 ++++++++++++-------
 ecl_threads/src/lib/thread_pos.cpp            | 32 ++++----
 2 files changed, 62 insertions(+), 47 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..d4a7220 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,6 +23,9 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
+#include <exception>
+#include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
@@ -50,11 +53,34 @@ namespace threads {
  */
 class ECL_LOCAL ThreadTaskBase {
 public:
-	virtual ~ThreadTaskBase() {};
+	virtual ~ThreadTaskBase() { running->store(false); };
+
+	/**
+	 * @brief Flag that outlives the task and is true for as long as the task exists.
+	 *
+	 * The task itself is owned (and deleted) by the thread that runs it.
+	 */
+	const std::shared_ptr< std::atomic<bool> >& runningFlag() const { return running; }
 
 protected:
-	ThreadTaskBase(const Priority& priority) : priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	ThreadTaskBase(const Priority& priority) : priority_level(priority), running(std::make_shared< std::atomic<bool> >(true)) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+
+	/**
+	 * @brief Configures the priority of the calling (i.e. the new) thread.
+	 *
+	 * There is nobody to catch an exception here, so on failure the task simply
+	 * runs with the priority it inherited.
+	 */
+	void configurePriority() {
+		ecl_try {
+			ecl::set_priority(priority_level);
+		} ecl_catch( const std::exception & ) {}
+	}
+
 	ecl::Priority priority_level;
+
+private:
+	std::shared_ptr< std::atomic<bool> > running;
 };
 /**
  * @brief The thread task template family.
@@ -92,12 +118,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
-	    ecl::set_priority(ptr->priority_level);
+	    // deletes the task when it has finished, but also when it gets cancelled.
+	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
+	    ptr->configurePriority();
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -140,12 +165,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
-	    ecl::set_priority(ptr->priority_level);
+	    // deletes the task when it has finished, but also when it gets cancelled.
+	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
+	    ptr->configurePriority();
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -240,9 +264,8 @@ public:
 	 * Use one of the start() functions to kick the thread off.
 	 */
 	Thread() :
-		thread_task(NULL),
 		has_started(false),
-		join_requested(false)
+		has_joined(false)
 	{
 		(void) schedule_parameters;
 	}
@@ -381,7 +404,7 @@ public:
 	 *
 	 * @return bool : true if the thread task is still running, false otherwise.
 	 */
-	bool isRunning() const { if ( thread_task == NULL ) { return false; } else { return true; } }
+	bool isRunning() const { return running && running->load(); }
 
 	/**
 	 * @brief Queue a cancel request for this thread to abort.
@@ -417,9 +440,9 @@ private:
 	pthread_t thread_handle;
     pthread_attr_t attrs;
     sched_param schedule_parameters;
-    threads::ThreadTaskBase *thread_task;
+    std::shared_ptr< std::atomic<bool> > running; // shared with the thread's task
     bool has_started;
-    bool join_requested;
+    bool has_joined;
 
 	void initialise(const long &stack_size);
 
@@ -434,9 +457,8 @@ private:
 
 template <typename C>
 Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
-	join_requested(false)
+	has_joined(false)
 {
 	start<C>(function, c, priority, stack_size);
 
@@ -444,9 +466,8 @@ Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long
 
 template <typename F>
 Thread::Thread(const F &function, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
-	join_requested(false)
+	has_joined(false)
 {
 	start<F>(function, priority, stack_size);
 }
@@ -457,19 +478,18 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	threads::ThreadTaskBase *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	running = thread_task->runningFlag();
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< BoundNullaryMemberFunction<C,void> >::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -479,19 +499,18 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	threads::ThreadTaskBase *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	running = thread_task->runningFlag();
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask<F, is_reference_wrapper<F>::value>::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..f591814 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -31,9 +31,8 @@ namespace ecl {
 *****************************************************************************/
 
 Thread::Thread(VoidFunction function, const Priority &priority, const long &stack_size) :
-  thread_task(NULL),
   has_started(false),
-  join_requested(false)
+  has_joined(false)
 {
   start(function, priority, stack_size);
 }
@@ -43,20 +42,19 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
-  thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  threads::ThreadTaskBase *thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  running = thread_task->runningFlag();
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< NullaryFreeFunction<void> >::EntryPoint, thread_task);
   pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
       delete thread_task;
-      thread_task = NULL;
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -73,30 +71,28 @@ Thread::~Thread() {
 //			// Has already been joined, so leave it be.
 //		}
 //	}
-  if ( has_started && !join_requested ) {
+  if ( has_started && !has_joined ) {
       pthread_detach(thread_handle);
   }
 }
 void Thread::cancel() {
-  int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
+  // the handle of a thread that never started or was already joined may not be used.
+  int result = ESRCH;
+  if ( has_started && !has_joined ) {
+    result = pthread_cancel(thread_handle);
+    // the task itself is cleaned up by its thread, here we just stop listening to it.
+    running.reset();
+  }
     if ( result != 0 ) {
         ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
     }
 }
 
 void Thread::join() {
-  join_requested = true;
-  if( thread_task != NULL ) {
+  if( has_started && !has_joined ) {
     int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
       ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
-      (void) result; // for unused variable warnings, in case the assert wasn't triggered
+      has_joined = ( result == 0 );
   }
 }
 
-- 
2.43.0


From 5f108e6f057c51bd1d1aa32d08960bb0d66fb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 02/40] fix: set_priority reports every failure and brings real
 time threads back to regular scheduling

---
 ecl_threads/src/lib/priority_pos.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..1dedc9e 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,26 +91,34 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
             // RealTimePriority# already handled, Default and Unknown -> do nothing.
-            break;
+            return true;
         }
     }
+    #if _POSIX_PRIORITY_SCHEDULING > 0
+        // Niceness means nothing to a real time thread, bring it back to the regular scheduler.
+        if ( ( return_value != -1 ) && ( sched_getscheduler(0) != SCHED_OTHER ) ) {
+            sched_param schedule_parameters;
+            schedule_parameters.sched_priority = 0;
+            return_value = sched_setscheduler(0,SCHED_OTHER,&schedule_parameters);
+        }
+    #endif
     if ( return_value == -1 ) {
         ecl_debug_throw(threads::throwPriorityException(LOC));
         return false;
@@ -176,6 +184,7 @@ Priority get_priority()
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
         case (PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4) : { return LowPriority; }
+        case (PRIO_MAX-1) : // linux only goes as far as 19.
         case (PRIO_MAX) : { return BackgroundPriority; }
         default : return NormalPriority;
     }
-- 
2.43.0


From b1272fbd93a014fef7437087fa102fe7bd2c6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 03/40] fix: Threadable starts one worker only and recovers
 from a failed thread creation

---
 .../include/ecl/threads/threadable.hpp        | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..6f7eacd 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -26,7 +26,7 @@
 ** Includes
 *****************************************************************************/
 
-#include <ecl/utilities/parameter.hpp>
+#include <atomic>
 #include <ecl/config/macros.hpp>
 #include "thread.hpp"
 #include "priority.hpp"
@@ -74,12 +74,17 @@ public:
 	 * Note that it makes a check first to see if a thread is already running and simply
 	 * returns if there is. There can be only one!
 	 *
-	 * @return bool : true if started, false if a worker thread is already running.
+	 * @return bool : true if started, false if a worker thread is already running (or could not be created).
+	 * @exception StandardException : throws if thread creation fails [debug mode only].
 	 */
 	bool start(const Priority &priority = DefaultPriority) {
-		if ( isRunning() ) { return false; }
-		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
+		if ( running.exchange(true) ) { return false; }
+		StartGuard guard(running);
+		Thread thread;
+		if ( thread.start(&Threadable::executeThreadFunction,*this, priority).flag() != NoError ) {
+			return false;
+		}
+		guard.started = true;
 		return true;
 	}
 	/**
@@ -87,18 +92,27 @@ public:
 	 *
 	 * Use this to check if a worker thread is already running.
 	 */
-	Parameter<bool> isRunning;
+	bool isRunning() const { return running.load(); }
 
 protected:
-	Threadable() : isRunning(false) {}
+	Threadable() : running(false) {}
 
 	virtual void runnable() = 0;
 
 private:
 	void executeThreadFunction() {
 		runnable();
-		isRunning(false);
+		running.store(false); // must come last, the instance may be gone as soon as this is seen
 	}
+
+	struct StartGuard { // lowers the flag again if the worker thread can't be started
+		StartGuard(std::atomic<bool> &flag) : started(false), running(flag) {}
+		~StartGuard() { if ( !started ) { running.store(false); } }
+		bool started;
+		std::atomic<bool> &running;
+	};
+
+	std::atomic<bool> running;
 };
 
 } // namespace ecl
-- 
2.43.0


From 0093a505ceb059cb64601b2fdfb9840aac4a0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 04/40] fix: Mutex timed trylock waits for its duration and
 locks() stays exact

---
 ecl_threads/include/ecl/threads/mutex_pos.hpp |  3 ++-
 ecl_threads/src/lib/mutex_pos.cpp             | 25 +++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..b517907 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -23,6 +23,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
 #include <errno.h>
 #include <cstring> // strerror function
 #include <string>
@@ -155,7 +156,7 @@ public:
 
 private:
 	RawMutex mutex;
-	unsigned int number_locks;
+	std::atomic<unsigned int> number_locks;
 
 };
 
diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..7b528ee 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -17,6 +17,8 @@
  *****************************************************************************/
 
 #include <errno.h>
+#include <time.h>
+#include <unistd.h> // _POSIX_TIMEOUTS
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/threads/mutex.hpp"
 
@@ -70,6 +72,9 @@ void Mutex::lock()
 {
   ++number_locks;
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) {
+    --number_locks; // neither holding it nor waiting for it
+  }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
@@ -77,14 +82,23 @@ void Mutex::lock()
 bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
+    // pthread_mutex_timedlock expects an absolute time on the realtime clock.
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000L) {
+      timeout.tv_sec += 1;
+      timeout.tv_nsec -= 1000000000L;
+    }
     int result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
     }
     ecl_assert_throw(result == 0, threads::throwMutexTimedLockException(LOC,result));
+    if (result != 0) {
+      return false;
+    }
     ++number_locks;
   #else
     (void) duration;
@@ -103,6 +117,9 @@ bool Mutex::trylock()
   }
 
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
+  if (result != 0) {
+    return false;
+  }
 
   // If we made it here, it means the attempt locked the mutex.
   ++number_locks;
@@ -111,8 +128,12 @@ bool Mutex::trylock()
 
 void Mutex::unlock()
 {
+  // once unlocked, this mutex is no longer ours to touch
   --number_locks;
   int result = pthread_mutex_unlock(&mutex);
+  if (result != 0) {
+    ++number_locks; // not ours, so still locked
+  }
   ecl_assert_throw(result == 0, threads::throwMutexUnLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From 6d2ca7c67a21ba0a237b9bc198fd51e96e03375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 05/40] fix: MicroSleep and NanoSleep calls set the whole sleep
 time

operator()(n) only set the nanoseconds: the seconds stayed whatever an earlier
call or the constructor had left, and the documented upper bounds (1000000us,
1000000000ns) were refused by nanosleep.
---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..d0910d4 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000; // integer division
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000; // integer division
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
-- 
2.43.0


From d37ea867d48f33d0d4688e93f49dc02fbd5ea886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 06/40] fix: Snooze keeps its grid and only validates when
 asked to

Every call validated, so a snooze that was late resynchronised (and slept) although
validation was off, and each resync added further periods recursively; a stamp of
exactly 1000000000ns was not wrapped and was refused by the sleep.
---
 ecl_time/src/lib/snooze_pos.cpp | 22 +++++++---------------
 ecl_time/src/lib/snooze_win.cpp | 22 +++++++---------------
 2 files changed, 14 insertions(+), 30 deletions(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..ea91436 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -50,14 +50,16 @@ void Snooze::initialise() {
 void Snooze::operator()() {
 
     add_period();
-    validate();
+    if ( validate_times ) {
+    	validate();
+    }
     sleep_until(time_value);
 }
 
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
@@ -65,10 +67,6 @@ void Snooze::add_period() {
     }
     // Seconds
     time_value.tv_sec += time_period.tv_sec;
-
-    if ( validate_times ) {
-    	validate();
-    }
 }
 
 void Snooze::validate() {
@@ -76,18 +74,12 @@ void Snooze::validate() {
 	TimeStructure time_current;
     epoch_time(time_current);
 
-    if ( time_current.tv_sec > time_value.tv_sec ) {
-    	// Revalidate
+    if ( ( time_current.tv_sec > time_value.tv_sec ) ||
+         ( ( time_current.tv_sec == time_value.tv_sec ) && ( time_current.tv_nsec > time_value.tv_nsec ) ) ) {
+    	// Fallen behind, resync with the current time
         time_value.tv_sec = time_current.tv_sec;
         time_value.tv_nsec = time_current.tv_nsec;
         add_period();
-    }  else if ( time_current.tv_sec == time_value.tv_sec ) {
-        if ( time_current.tv_nsec > time_value.tv_nsec ) {
-        	// Revalidate
-            time_value.tv_sec = time_current.tv_sec;
-            time_value.tv_nsec = time_current.tv_nsec;
-            add_period();
-        }
     }
 }
 
diff --git a/ecl_time/src/lib/snooze_win.cpp b/ecl_time/src/lib/snooze_win.cpp
index 63a9f56..e5f9ec0 100644
--- a/ecl_time/src/lib/snooze_win.cpp
+++ b/ecl_time/src/lib/snooze_win.cpp
@@ -50,14 +50,16 @@ void Snooze::initialise() {
 void Snooze::operator()() {
 
     add_period();
-    validate();
+    if ( validate_times ) {
+    	validate();
+    }
     sleep_until(time_value);
 }
 
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
@@ -65,10 +67,6 @@ void Snooze::add_period() {
     }
     // Seconds
     time_value.tv_sec += time_period.tv_sec;
-
-    if ( validate_times ) {
-    	validate();
-    }
 }
 
 void Snooze::validate() {
@@ -76,18 +74,12 @@ void Snooze::validate() {
 	TimeStructure time_current;
     epoch_time(time_current);
 
-    if ( time_current.tv_sec > time_value.tv_sec ) {
-    	// Revalidate
+    if ( ( time_current.tv_sec > time_value.tv_sec ) ||
+         ( ( time_current.tv_sec == time_value.tv_sec ) && ( time_current.tv_nsec > time_value.tv_nsec ) ) ) {
+    	// Fallen behind, resync with the current time
         time_value.tv_sec = time_current.tv_sec;
         time_value.tv_nsec = time_current.tv_nsec;
         add_period();
-    }  else if ( time_current.tv_sec == time_value.tv_sec ) {
-        if ( time_current.tv_nsec > time_value.tv_nsec ) {
-        	// Revalidate
-            time_value.tv_sec = time_current.tv_sec;
-            time_value.tv_nsec = time_current.tv_nsec;
-            add_period();
-        }
     }
 }
 
-- 
2.43.0


From dfe38e1cefa5bee62c031b0a1366dd1b1c5fb5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 07/40] fix: differences of timestamps stay normalised

Subtracting stamps of opposite sign left nanoseconds beyond a second in the result,
which the constructor then rejected or every comparison misjudged.
---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..3731765 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +194,13 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From 9760d6e247c3b499209651319d9047663899aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 08/40] fix: FrequencyMonitor measures its window with the
 clock it was given

analyse() always read the realtime clock while the window started on the monotonic
one, so the first window was decades long, and a monotonic monitor followed every
step of the wall clock.
---
 ecl_time/src/lib/frequency.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..e46bede 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -23,7 +23,11 @@ FrequencyMonitor::FrequencyMonitor(
 )
 : current_diagnostics()
 , incoming_counter(0)
-, last_anyalsed()
+#if defined(ECL_HAS_RT_TIMERS)
+, last_anyalsed((use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp())
+#else
+, last_anyalsed(ecl::TimeStamp())
+#endif
 , minimum_interval(100000.0) // something ridiculously large so the next interval will fall underneath it
 , maximum_interval(0.0)
 , period(window_period)
@@ -56,7 +60,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From 0a18c506a3979c910efd3dfe07cada4a2b74c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:07 +0000
Subject: [PATCH 09/40] fix: Semaphore locks survive signals, timed locks use
 the realtime clock and only the creator unlinks the name

---
 ecl_ipc/include/ecl/ipc/semaphore_pos.hpp |  4 ++-
 ecl_ipc/src/lib/semaphore_pos.cpp         | 41 ++++++++++++++++++-----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp b/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
index d149c13..de32910 100644
--- a/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/semaphore_pos.hpp
@@ -137,7 +137,8 @@ public:
 	/**
 	 * @brief Clean up the semaphore handles.
 	 *
-	 * Cleans up the posix structures associated with the semaphore.
+	 * Cleans up the posix structures associated with the semaphore. The name is
+	 * released with the object that created the semaphore.
 	 **/
 	virtual ~Semaphore();
 
@@ -183,6 +184,7 @@ public:
 private:
 	std::string name;
 	sem_t* semaphore;
+	bool manager; // created it, so it unlinks the name
 
 	/**
 	 * @brief Return the semaphore count.
diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..3a03663 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -15,10 +15,10 @@
 #ifdef ECL_HAS_POSIX_SEMAPHORES
 
 #include <errno.h>
+#include <time.h>
 #include <sstream>
 #include <ecl/errors/handlers.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
-#include <ecl/time_lite/functions.hpp>
 
 /*****************************************************************************
 ** Namespaces
@@ -44,7 +44,8 @@ Semaphore::Semaphore() {
 
 Semaphore::Semaphore(const std::string& string_id):
 	name(string("/"+string_id)),
-	semaphore(NULL)
+	semaphore(SEM_FAILED),
+	manager(false)
 {
     /*********************
      * Open Flags
@@ -54,8 +55,10 @@ Semaphore::Semaphore(const std::string& string_id):
      * O_EXCL     : when used with O_CREAT fails to open if the semaphore already exists.
      *
      * Other flags are unnecessary.
+     *
+     * Whoever creates it manages the name, everybody else just opens it.
      */
-    static const int open_flags = O_CREAT;
+    static const int create_flags = O_CREAT|O_EXCL;
     /*********************
      * Permissions
      *********************/
@@ -89,21 +92,40 @@ Semaphore::Semaphore(const std::string& string_id):
     /*********************
     ** Open
     **********************/
-    semaphore = sem_open(name.c_str(),open_flags,permissions,initial_value_unlocked);
+    bool retry;
+    do {
+        retry = false;
+        semaphore = sem_open(name.c_str(),create_flags,permissions,initial_value_unlocked);
+        if ( semaphore != SEM_FAILED ) {
+            manager = true;
+        } else if ( errno == EEXIST ) {
+            semaphore = sem_open(name.c_str(),0);
+            // its manager may have unlinked it in between
+            retry = ( semaphore == SEM_FAILED ) && ( errno == ENOENT );
+        }
+    } while ( retry );
     ecl_assert_throw(semaphore != SEM_FAILED, ipc::openSemaphoreException(LOC));
 }
 
 Semaphore::~Semaphore()
 {
+    if ( semaphore == SEM_FAILED ) { // Never opened (not reported in release mode)
+        return;
+    }
 	// Should check the error, but only fails if the semaphore is invalid (checked by constructor).
     sem_close(semaphore);
-	// Should check the error, but only fails with noncritical errors.
-    sem_unlink(name.c_str());
+    // The name must stay while its manager lives, otherwise others can no longer
+    // open this semaphore (they would create another one of the same name).
+    if ( manager ) {
+        // Should check the error, but only fails with noncritical errors.
+        sem_unlink(name.c_str());
+    }
 }
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	// Only return with the lock, keep waiting if a signal interrupts.
+	while ( ( sem_wait(semaphore) != 0 ) && ( errno == EINTR ) ) {}
 }
 
 int Semaphore::count()
@@ -143,12 +165,13 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		long tnsec;
 		timespec ctime;
 
-		if ( epoch_time(ctime).flag() != NoError ) { return false; }
+		// sem_timedwait expects an absolute time on the realtime clock
+		if ( clock_gettime(CLOCK_REALTIME,&ctime) != 0 ) { return false; }
 
 		ctime.tv_sec += timeout.sec();
 
 		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
+		if(tnsec >=  1000000000 ) { ctime.tv_sec += 1; }
 		tnsec %= 1000000000;
 		ctime.tv_nsec = tnsec;
 
-- 
2.43.0


From a07e4b76ee9a2861de070e4cbe454dfef189a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:07 +0000
Subject: [PATCH 10/40] fix: SharedMemory failures leave the memory of others
 alone and release their own mapping

---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 10 ++++----
 ecl_ipc/src/lib/shared_memory_pos.cpp         | 23 +++++++++++--------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..eac9779 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -42,6 +42,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <errno.h>
 #include <sstream>
 #include <string>
 #include <sys/mman.h>        /* For shm_open() */
@@ -195,9 +196,10 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
+        int error_result = errno;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { unlink(); } // not ours otherwise
+        errno = error_result;
         ecl_throw( ipc::memoryMapException(LOC) );
     }
     /*
@@ -206,9 +208,9 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
+        munmap(shm_address,shared_memory_size);
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { unlink(); } // not ours otherwise
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
     }
 
diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7430e0b..7e14653 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -87,15 +87,20 @@ int SharedMemoryBase::open() {
     /*************************************************************************
     ** Open
     *************************************************************************/
-    int shm_descriptor = shm_open(name.c_str(),create_flags,permissions);
-    if ( ( shm_descriptor == -1 ) && ( errno == EEXIST ) ) {
-        // Maybe its already open, try opening it normally
-        shm_descriptor = shm_open(name.c_str(),open_flags,permissions);
-    } else {
-    	shared_memory_manager = true;
-    }
-    if ( shm_descriptor == -1) {
-    }
+    int shm_descriptor;
+    bool retry;
+    do {
+        retry = false;
+        shm_descriptor = shm_open(name.c_str(),create_flags,permissions);
+        if ( shm_descriptor != -1 ) {
+            shared_memory_manager = true;
+        } else if ( errno == EEXIST ) {
+            // Maybe its already open, try opening it normally
+            shm_descriptor = shm_open(name.c_str(),open_flags,permissions);
+            // its manager may have unlinked it in between
+            retry = ( shm_descriptor == -1 ) && ( errno == ENOENT );
+        }
+    } while ( retry );
 	return shm_descriptor;
 }
 
-- 
2.43.0


From 5629677bab4e37018935c25ac46bb0791b1f70e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:07 +0000
Subject: [PATCH 11/40] fix: OFile truncates new files, releases what it held
 and reports every write it could not make

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp |  7 ++--
 ecl_devices/src/lib/ofile_pos.cpp             | 36 +++++++++++++------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..0d86e5d 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -313,14 +313,15 @@ long OFile::write(const ByteArray&byte_array) {
     	error_handler = OpenError;
     	return -1;
     }
-    size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
-    if ( written == 0) {
+    size_t n = byte_array.size();
+    size_t written = ( n == 0 ) ? 0 : fwrite(&byte_array[0],1,n,file);
+    if ( written < n ) {
     	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
     	return -1;
     }
     error_handler = NoError;
-    return byte_array.size()*written; // fwrite returns the number of 'items' written, not bytes!
+    return written;
 }
 
 
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..380ea78 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -19,6 +19,7 @@
 
 #include "../../include/ecl/devices/ofile_pos.hpp"
 #include "../../include/ecl/devices/detail/error_handler.hpp"
+#include <cerrno>
 #include <iostream>
 #include <ecl/exceptions/macros.hpp>
 
@@ -63,13 +64,17 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	// opening again ends the use of the file that was open before.
+	if ( open() && !close() ) {
+		return false;
+	}
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
+        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
-                ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
+                ecl_throw(devices::open_exception(LOC,file_name));
                 return false;
             }
             file = fdopen(file_descriptor,"w");
@@ -78,8 +83,8 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         case(Append) : {
         	file_descriptor = ::open(name.c_str(),O_WRONLY|O_APPEND|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
-                ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
+                ecl_throw(devices::open_exception(LOC,file_name));
                 return false;
             }
             file = fdopen(file_descriptor,"a");
@@ -88,8 +93,11 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         default : break;
     }
     if ( file == NULL ) {
-        ecl_throw(devices::open_exception(LOC,file_name));
+        int fdopen_errno = errno;
+        ::close(file_descriptor);
+        errno = fdopen_errno;
         error_handler = devices::open_error();
+        ecl_throw(devices::open_exception(LOC,file_name));
         return false;
     }
 	error_handler = NoError;
@@ -99,12 +107,14 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 bool OFile::close() {
 	if ( open() ) {
 		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
-			ecl_throw(devices::close_exception(LOC,name));
+		int result = fclose(file);
+		// whatever fclose says, the stream and its descriptor are gone.
+		file = NULL;
+		if ( result != 0 ) {
 			error_handler = devices::close_error();
+			ecl_throw(devices::close_exception(LOC,name));
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
@@ -138,21 +148,25 @@ long OFile::write(const char* s, unsigned long n)
 		error_handler = OpenError;
     	return -1;
 	}
-	size_t written = fwrite(s,n,1,file);
-    if ( written <= 0 ) {
+	size_t written = fwrite(s,1,n,file);
+    if ( written < n ) {
     	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
     	return -1;
     }
 	error_handler = NoError;
-    // fwrite returns the number of 'items' written, not bytes!
-    return n*written;
+    return written;
 }
 
 bool OFile::flush() {
 	// This flushes userland buffers to the kernel buffers...not sure why,
 	// but you can still read the file in real time, so its good enough and
 	// thus better than a more expensive fsync here.
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
+		error_handler = OpenError;
+		return false;
+	}
 	int result = fflush(file);
 	if ( result != 0 ) {
 		ecl_debug_throw ( StandardException(LOC, UnknownError, std::string("Could not fflush ") + name + std::string(".")));
-- 
2.43.0


From f4f38b543e4d321987f03f260846d842c7e70b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 12/40] fix: SharedFile releases its lock and its share on
 every path, keeps unflushed data and writes under the shared mutex

---
 .../include/ecl/devices/shared_file.hpp       |  8 ++--
 ecl_devices/src/lib/shared_file.cpp           | 47 ++++++++++++++-----
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..6a15fb8 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -63,7 +63,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : error_handler(NoError) {};
+    SharedFileCommon() : count(0), error_handler(NoError) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(new devices::SharedFileCommon()) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -185,7 +185,7 @@ public:
 	 *
 	 * @return bool : true if open, false otherwise.
 	 */
-	bool open() { return shared_instance->file.open(); }
+	bool open() { return shared_instance != NULL && shared_instance->file.open(); }
 	/**
 	 * @brief Write a character to the buffer.
 	 *
@@ -230,6 +230,8 @@ public:
 	const Error& error() const { return shared_instance->error_handler; }
 
 private:
+	void release(); // gives up the share of the file
+
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
 };
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..7c962e5 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -90,6 +90,7 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
@@ -107,6 +108,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
@@ -138,25 +140,45 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 	ecl_try {
 		open(name,mode);
 	} ecl_catch( StandardException &e ) {
+		release();
 		ecl_throw(StandardException(LOC,e));
 	}
 }
 
 SharedFile::~SharedFile() {
 	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
-	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
-	        } else {
-	            delete shared_instance;
-	        }
+		if ( open() ) {
+			flush();
+		}
 	} ecl_catch( StandardException &e ) {
 		// Never throw from a destructor!
 		// use some other mechanism!!!
 		// throw StandardException(LOC,e);
 	}
+	release();
+}
+
+void SharedFile::release() {
+	ecl_try {
+		// only instances with an open file are registered for sharing
+		if ( open() ) {
+			devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
+		} else {
+			delete shared_instance;
+		}
+	} ecl_catch( StandardException &e ) {
+		// nothing left to clean up
+	}
+	shared_instance = NULL;
+	buffer.clear();
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	// opening again ends the use of the file that was open before.
+	if ( open() && !flush() ) {
+		return false;
+	}
+	release();
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
@@ -199,20 +221,21 @@ long SharedFile::write(const char* s, unsigned long n) {
 
 bool SharedFile::flush() {
 	long written;
+	long n = buffer.size();
+	// whatever is not written now is reported and lost
+	buffer.clear();
+	shared_instance->mutex.lock();
 	ecl_debug_try {
-		written = shared_instance->file.write(buffer.c_ptr(), buffer.size() );
+		written = shared_instance->file.write(buffer.c_ptr(), n );
 	} ecl_debug_catch(const StandardException &e) {
 		shared_instance->error_handler = shared_instance->file.error();
+		shared_instance->mutex.unlock();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
-	buffer.clear();
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
-	if ( written > 0 ) {
-		return true;
-	} else {
-		return false;
-	}
+	shared_instance->mutex.unlock();
+	return ( written == n );
 }
 
 
-- 
2.43.0


From 34416853b552986df4db99518aa37892cfef8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 13/40] fix: sockets close what they opened exactly once, never
 touch a descriptor they do not own and report every failure

---
 .../include/ecl/devices/socket_client_pos.hpp |  2 +-
 .../include/ecl/devices/socket_server_pos.hpp |  8 +++-
 ecl_devices/src/lib/socket_client_pos.cpp     | 43 ++++++++++---------
 ecl_devices/src/lib/socket_server_pos.cpp     | 32 +++++++++++---
 4 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index 6e957c4..b218e66 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -66,7 +66,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketClient() : is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
+	SocketClient() : port(0), socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..897288f 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -62,7 +62,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : port(0), socket_fd(-1), client_socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +107,11 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close() {
+		is_open = false;
+		if ( client_socket_fd >= 0 ) { ::close(client_socket_fd); client_socket_fd = -1; }
+		if ( socket_fd >= 0 ) { ::close(socket_fd); socket_fd = -1; }
+	}
 
 	bool open() const { return is_open; }
 
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..70512a6 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -20,7 +20,7 @@
 
 #include <unistd.h>
 #include <iostream>
-#include <netdb.h> // gethostbyname
+#include <netdb.h> // getaddrinfo
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/devices/detail/socket_error_handler_pos.hpp"
 #include "../../include/ecl/devices/detail/socket_exception_handler_pos.hpp"
@@ -46,6 +46,7 @@ using std::string;
 SocketClient::SocketClient(const std::string &host_name, const unsigned int &port_number) :
 		hostname(host_name),
 		port(port_number),
+		socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -58,7 +59,8 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 
 void SocketClient::close() {
 	 is_open = false;
-	 ::close(socket_fd); // should have error handling here
+	 if ( socket_fd >= 0 ) { ::close(socket_fd); } // should have error handling here
+	 socket_fd = -1;
 }
 
 bool SocketClient::open( const std::string &host_name, const unsigned int& port_number ) {
@@ -85,19 +87,16 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
     /*********************
 	** Hostname
 	**********************/
-    struct hostent *host_entry;
-    /******************************************
-     * struct hostent {
-     *   char  *h_name;            //official name of host
-     *   char **h_aliases;         // array of aliases (terminated by NULL)
-     *   int    h_addrtype;        // host address type
-     *   int    h_length;          // length of address
-     *   char **h_addr_list;       // array of addresses (terminated by NULL)
-     * }
-     ******************************************/
-    host_entry = gethostbyname(hostname.c_str());
-    if ( host_entry == NULL ) { // gethostbyname doesn't seem to be checking hostname validity???
-    	::close(socket_fd);
+    // getaddrinfo, as the answer of gethostbyname is shared by all threads
+    struct addrinfo hints;
+    memset(&hints, 0, sizeof(hints));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *addresses = NULL;
+    int lookup_result = getaddrinfo(hostname.c_str(), NULL, &hints, &addresses);
+    if ( lookup_result != 0 ) {
+    	close();
+    	h_errno = ( lookup_result == EAI_NONAME ) ? HOST_NOT_FOUND : ( lookup_result == EAI_AGAIN ) ? TRY_AGAIN : NO_RECOVERY;
     	ecl_throw(devices::gethostbyname_exception(LOC,hostname));
     	error_handler = devices::gethostbyname_error();
     	return false;
@@ -108,7 +107,8 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
 	**********************/
     struct sockaddr_in destination;
     destination.sin_family = AF_INET;    // host byte order
-    destination.sin_addr = *((struct in_addr *)host_entry->h_addr);
+    destination.sin_addr = ((struct sockaddr_in *)addresses->ai_addr)->sin_addr;
+    freeaddrinfo(addresses);
     destination.sin_port = htons(port);  // short host byte order to network byte order
     memset(destination.sin_zero, '\0', sizeof destination.sin_zero);
 
@@ -117,8 +117,9 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
 	**********************/
     int connect_result = connect( socket_fd, (struct sockaddr *) &destination, sizeof(destination) );
     if ( connect_result == -1 ) {
-    	is_open = false;
-    	::close(socket_fd);
+    	int connect_errno = errno;
+    	close();
+    	errno = connect_errno;
     	ecl_throw(devices::connection_exception(LOC));
     	error_handler = devices::connection_error();
     	return false;
@@ -154,7 +155,7 @@ long SocketClient::read(char *s, const unsigned long &n) {
     /*********************
 	** Error Handling
 	**********************/
-    if ( bytes_read == 0 ) {
+    if ( ( bytes_read == 0 ) && ( n > 0 ) ) {
         // Server has dropped
         close();
         return ConnectionHungUp;
@@ -191,11 +192,12 @@ long SocketClient::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes; // FIONREAD stores an int
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
     	error_handler =  devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
@@ -232,6 +234,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..b5be4ad 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -84,7 +86,9 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
+    	int bind_errno = errno;
+    	close();
+    	errno = bind_errno;
     	ecl_throw(devices::bind_exception(LOC));
     	error_handler = devices::bind_error();
     	return false;
@@ -99,7 +103,11 @@ int SocketServer::listen() {
 	/*********************
 	** Params
 	**********************/
-	::listen(socket_fd,1); // Number of clients to allow
+    if ( ::listen(socket_fd,1) == -1 ) { // Number of clients to allow
+    	ecl_throw(devices::accept_exception(LOC));
+    	error_handler = devices::accept_error();
+    	return -1;
+    }
 
 	/*********************
 	** Listen
@@ -107,12 +115,14 @@ int SocketServer::listen() {
     struct sockaddr_in client;
     int client_length = sizeof(client);
 
-    client_socket_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
-    if (client_socket_fd < 0) {
+    int accepted_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
+    if (accepted_fd < 0) {
     	ecl_throw(devices::accept_exception(LOC));
     	error_handler =devices::accept_error();
     	return -1;
     }
+    if ( client_socket_fd >= 0 ) { ::close(client_socket_fd); } // the previous client
+    client_socket_fd = accepted_fd;
     error_handler = NoError;
     return client_socket_fd;
 
@@ -124,7 +134,7 @@ int SocketServer::listen() {
 
 long SocketServer::read(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( !open() || ( client_socket_fd < 0 ) ) { return ConnectionDisconnected; }
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
@@ -133,7 +143,7 @@ long SocketServer::read(char *s, const unsigned long &n) {
     	return ConnectionProblem;
     }
 
-    if ( bytes_read == 0 ) {
+    if ( ( bytes_read == 0 ) && ( n > 0 ) ) {
         // Server has dropped
         close();
         return ConnectionHungUp;
@@ -144,6 +154,8 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+    if ( !open() || ( client_socket_fd < 0 ) ) { return ConnectionDisconnected; }
+
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -155,7 +167,10 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
-    unsigned long bytes;
+
+    if ( !open() || ( client_socket_fd < 0 ) ) { return ConnectionDisconnected; }
+
+    int bytes; // FIONREAD stores an int
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
@@ -172,6 +187,9 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+
+    if ( !open() || ( client_socket_fd < 0 ) ) { return ConnectionDisconnected; }
+
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
-- 
2.43.0


From c9b91c9c981f4d25867608651e93c8ab266d0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 14/40] fix: Serial releases the port on every failed open,
 starts fully initialised, keeps input when the read mode changes and the
 eighth data bit with parity

---
 .../include/ecl/devices/serial_pos.hpp        |  4 +-
 ecl_devices/src/lib/serial_pos.cpp            | 47 ++++++++++++++-----
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..1fc3c61 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -141,7 +141,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), options(), read_timeout_ms(5000), fake_loop_count(1), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
@@ -449,7 +449,7 @@ namespace ecl
       error_handler = OpenError;
       return -1;
     }
-    ssize_t no_read;
+    ssize_t no_read = 0;
     if ( ( read_timeout_ms != NonBlocking ) && ( read_timeout_ms < 100 ) )
     {
       fake_snooze.initialise();
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..95bdd94 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), options(), port(port_name), read_timeout_ms(5000), fake_loop_count(1), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
@@ -91,6 +91,11 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                   const StopBits &stop_bits, const Parity &parity)
 {
 
+  if (open())
+  {
+    close();
+  }
+
   /*********************
    ** Input Checks
    **********************/
@@ -103,10 +108,6 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
     return false;
   }
 
-  if (open())
-  {
-    close();
-  }
   port = port_name;
   // One curious thing here is O_NONBLOCK. If you do not specify this, it will try
   // and wait till the line has an 'other' end. Which it can't possibly know, so
@@ -124,6 +125,8 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
   {
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(StandardException(LOC,ConfigurationError,"Selected baudrate is not supported."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -152,8 +155,11 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   file_lock.l_pid = getpid();
   if (fcntl(file_descriptor, F_SETLK, &file_lock) != 0)
   {
+    int lock_errno = errno;
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(
-        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(errno))));
+        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(lock_errno))));
     error_handler = IsLockedError;
     is_open = false;
     return false;
@@ -172,6 +178,8 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (cfsetspeed(&options, baud_rate_flags[baud_rate]) < 0)
   {
+    ::close(file_descriptor);
+    file_descriptor = -1;
     ecl_throw(StandardException(LOC,ConfigurationError,"Setting speed failed."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -241,13 +249,15 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   }
   else if (parity == EvenParity)
   {
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check
+    if (data_bits != DataBits_8) { options.c_iflag |= ISTRIP; } // the eighth bit is not data, strip it
     options.c_cflag |= PARENB;
     options.c_cflag &= ~PARODD;
   }
   else
   { // OddParity
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check
+    if (data_bits != DataBits_8) { options.c_iflag |= ISTRIP; } // the eighth bit is not data, strip it
     options.c_cflag |= PARENB;
     options.c_cflag |= PARODD;
   }
@@ -259,7 +269,15 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    * TCSADRAIN - wait till everything is transmitted, don't do anything with unread data.
    * TCSAFLUSH - wait till everything is transmitted, also clear unread data.
    *******************************************/
-  tcsetattr(file_descriptor, TCSAFLUSH, &options);
+  if (tcsetattr(file_descriptor, TCSAFLUSH, &options) != 0)
+  {
+    ::close(file_descriptor);
+    file_descriptor = -1;
+    ecl_throw(StandardException(LOC,ConfigurationError,"Configuring the serial port failed (is it a serial device?)."));
+    error_handler = ConfigurationError;
+    is_open = false;
+    return false;
+  }
 
   /******************************************
   ** Reset Status
@@ -282,6 +300,7 @@ void Serial::close()
   {
     // should check return values here, it does have some, EBADF/EINTR/EIO
     ::close(file_descriptor);
+    file_descriptor = -1;
     is_open = false;
   }
 }
@@ -335,6 +354,10 @@ void Serial::block(const unsigned long &timeout)
         fake_loop_count = d.quot + 1;
       }
     }
+    if (fake_loop_count == 0)
+    {
+      fake_loop_count = 1; // look at least once
+    }
     this->unblock();
   }
   else
@@ -347,9 +370,9 @@ void Serial::block(const unsigned long &timeout)
     }
     else
     {
-      options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
+      options.c_cc[VTIME] = static_cast<unsigned char>((timeout / 100 > 255) ? 255 : timeout / 100); // at most 25.5s
     }
-    tcsetattr(file_descriptor, TCSAFLUSH, &options);
+    tcsetattr(file_descriptor, TCSANOW, &options);
   }
   read_timeout_ms = timeout;
 }
@@ -358,7 +381,7 @@ void Serial::unblock()
 {
   options.c_cc[VMIN] = 0;
   options.c_cc[VTIME] = 0;
-  tcsetattr(file_descriptor, TCSAFLUSH, &options);
+  tcsetattr(file_descriptor, TCSANOW, &options);
   read_timeout_ms = NonBlocking;
 }
 
-- 
2.43.0


From 30ea51693e4c257a659929e2ba4d44584344997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:05 +0000
Subject: [PATCH 15/40] fix: consoles lose bytes and hide errors, String writes
 past its buffer

The output consoles flushed with fputs (cutting the text at a null character)
and reported failures in debug mode only; IConsole took a 0xff character for
the end of the input and lost what follows a null character in a line.
String::grow did not record the grown capacity and clear() recorded one too
few, so writes ended up beyond the end of the buffer.
---
 .../ecl/devices/detail/character_buffer.hpp   |  1 +
 ecl_devices/src/lib/console.cpp               | 46 +++++++++++++++----
 ecl_devices/src/lib/string.cpp                |  9 ++--
 3 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/character_buffer.hpp b/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
index 7891fcf..8a1aa7f 100644
--- a/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
+++ b/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
@@ -93,6 +93,7 @@ public:
 	virtual ~CharStringBuffer() {}
 
 	unsigned int remaining() { return ( buffer_size - fill_point_marker); }
+	unsigned int size() const { return fill_point_marker; }
 	bool full() const;
 	long append(const char &c);
 	long append(const char* s, unsigned long n);
diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..b57367d 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -11,6 +11,7 @@
 *****************************************************************************/
 
 #include <cstdio>
+#include <cstring>
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/devices/console.hpp"
@@ -27,30 +28,36 @@ namespace ecl {
 
 long OConsole::write(const char &c)
 {
+	error_handler = NoError;
 	long n = buffer.append(c);
 	if ( buffer.full() ) {
 		flush();
+		if ( error_handler.flag() != NoError ) { return -1; }
 	}
 	return n;
 }
 
 long OConsole::write(const char* s, unsigned long n)
 {
-	unsigned int no_written = 0;
+	error_handler = NoError;
+	unsigned long no_written = 0;
 	while ( no_written < n ) {
 		no_written += buffer.append(s+no_written,n-no_written);
 		if ( buffer.full() ) {
 			flush();
+			if ( error_handler.flag() != NoError ) { return -1; }
 		}
 	}
 	return n;
 }
 
 void OConsole::flush() {
-    fputs(buffer.c_str(),stdout);
+    size_t size = buffer.size();
+    size_t no_written = fwrite(buffer.c_str(),1,size,stdout);
     buffer.clear();
 	int result = fflush(stdout);
-	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
+	error_handler = ( ( no_written == size ) && ( result == 0 ) ) ? NoError : WriteError;
+	ecl_assert_throw ( error_handler.flag() == NoError, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
 }
 
 /*****************************************************************************
@@ -59,30 +66,36 @@ void OConsole::flush() {
 
 long EConsole::write(const char &c)
 {
+	error_handler = NoError;
 	long n = buffer.append(c);
 	if ( buffer.full() ) {
 		flush();
+		if ( error_handler.flag() != NoError ) { return -1; }
 	}
 	return n;
 }
 
 long EConsole::write(const char* s, unsigned long n)
 {
-	unsigned int no_written = 0;
+	error_handler = NoError;
+	unsigned long no_written = 0;
 	while ( no_written < n ) {
 		no_written += buffer.append(s+no_written,n-no_written);
 		if ( buffer.full() ) {
 			flush();
+			if ( error_handler.flag() != NoError ) { return -1; }
 		}
 	}
 	return n;
 }
 
 void EConsole::flush() {
-    fputs(buffer.c_str(),stderr);
+    size_t size = buffer.size();
+    size_t no_written = fwrite(buffer.c_str(),1,size,stderr);
     buffer.clear();
 	int result = fflush(stderr);
-	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
+	error_handler = ( ( no_written == size ) && ( result == 0 ) ) ? NoError : WriteError;
+	ecl_assert_throw ( error_handler.flag() == NoError, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
 }
 
 /*****************************************************************************
@@ -93,9 +106,11 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+    int result = fgetc(stdin);
+    c = static_cast<char>(result);
+    error_handler = ( result == EOF ) ? ReadError : NoError;
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
 //    	while ( fgetc(stdin) != '\n' ) {}
@@ -105,7 +120,9 @@ long IConsole::read(char &c)
 
 long IConsole::read(char* s, const unsigned long &n)
 {
+    memset(s,'\n',n); // marks what fgets does not touch, as the input may contain null characters
     char *result = fgets(s,n,stdin);
+    error_handler = ( result == NULL ) ? ReadError : NoError;
     if ( result == NULL ) {
         ecl_debug_throw( StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // Fallover if not in debug mode.
@@ -113,7 +130,16 @@ long IConsole::read(char* s, const unsigned long &n)
         // fgets always terminates with a null character, even if it manages
         // to read n-1 chars. We also need to make sure we drop the newline
     	// character that was returned to trigger the input.
-    	size_t length = strlen(s); // This doesn't count the \0 character.
+    	size_t length = n-1; // This doesn't count the \0 character.
+    	const char *newline = static_cast<const char*>(memchr(s,'\n',n));
+    	if ( newline != NULL ) {
+    		length = newline - s;
+    		if ( ( length + 1 < n ) && ( s[length+1] == '\0' ) ) {
+    			++length; // the line is complete
+    		} else {
+    			--length; // the input ended, this is the mark behind the \0 character
+    		}
+    	}
 //    	*(s+length-1) = '\0'; // drop the newline
 //    	return length-1;
     	return length;
diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..6a7ec6d 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -49,10 +49,12 @@ void String::grow(int no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    unsigned long new_length = size()+no_bytes+1;
+    new_buffer = new char[new_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
+    buffer_length = new_length;
     buffer_cur_read = buffer+cur_pos;
     buffer_cur_write = buffer+cur_end;
 }
@@ -107,9 +109,10 @@ unsigned long String::remaining()
  **/
 void String::clear()
 {
+    char* new_buffer = new char[1];
     delete [] buffer;
-    buffer = new char[1];
-    buffer_length = 0;
+    buffer = new_buffer;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From 37f042898d9cfe9dc158028edc4206661d0fc974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 16/40] fix: signals and slots are unsafe across threads, in
 callbacks, on assignment and on failure

The topics, subscriber lists, handle counts and running callbacks were shared
between threads without any lock, an emit walked containers its callbacks may
change, a throwing callback or one ended by another thread left the slot locked
for ever, assignment ignored the handle counts (double delete, leak), and a
connect that ran out of memory left half a connection behind.
---
 ecl_sigslots/include/ecl/sigslots/manager.hpp |  40 +++-
 ecl_sigslots/include/ecl/sigslots/signal.hpp  |  26 +--
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 194 ++++++++++++++----
 ecl_sigslots/include/ecl/sigslots/slot.hpp    |  32 +--
 4 files changed, 217 insertions(+), 75 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..9f76e48 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/config/macros.hpp>
@@ -57,6 +58,7 @@ public:
 	 * Only here for debugging purposes only.
 	 */
 	static void printStatistics() {
+		std::lock_guard<std::mutex> lock(mutex());
 		std::cout << "Topics" << std::endl;
 		typename std::map< std::string, Topic<Data> >::iterator iter;
 		for ( iter = topics().begin(); iter != topics().end(); ++iter ) {
@@ -87,7 +89,12 @@ private:
 		// refer to http://www.cplusplus.com/reference/stl/map/insert/
 		std::pair< typename std::map< std::string, Topic<Data> >::iterator,bool> ret = topics().insert( std::pair< std::string, Topic<Data> >(topic, Topic<Data>(topic)) );
 		Topic<Data>& current_topic = (ret.first)->second;
-		current_topic.addPublisher(sigslot);
+		try {
+			current_topic.addPublisher(sigslot);
+		} catch ( ... ) {
+			disconnect(topic,NULL); // never leave an unused topic behind
+			throw;
+		}
 		return current_topic.subscribers();
 	}
 
@@ -106,7 +113,12 @@ private:
 		// refer to http://www.cplusplus.com/reference/stl/map/insert/
 		std::pair< typename std::map< std::string, Topic<Data> >::iterator,bool> ret = topics().insert(std::pair< std::string, Topic<Data> >(topic, Topic<Data>(topic)) );
 		Topic<Data>& current_topic = (ret.first)->second;
-		current_topic.addSubscriber(sigslot);
+		try {
+			current_topic.addSubscriber(sigslot);
+		} catch ( ... ) {
+			disconnect(topic,NULL); // never leave an unused topic behind
+			throw;
+		}
 	}
 
 	/**
@@ -121,12 +133,20 @@ private:
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
-		}
-		if ( iter->second.empty() ) {
-			topics().erase(iter);
+			if ( iter->second.empty() ) {
+				topics().erase(iter);
+			}
 		}
 	}
 
+	/**
+	 * @brief Check to see if a sigslot is a subscriber (listener) of a topic.
+	 */
+	static bool isSubscribed(const std::string& topic, SigSlot<Data>* sigslot) {
+		typename std::map< std::string, Topic<Data> >::const_iterator iter = topics().find(topic);
+		return ( iter != topics().end() ) && ( iter->second.subscribers()->count(sigslot) != 0 );
+	}
+
 	/**
 	 * @brief Check to see if the specified topic exists (and is being used).
 	 *
@@ -149,6 +169,16 @@ private:
 		return topic_list;
 	}
 
+	/**
+	 * @brief Protects the topics and the connections of all the sigslots of this type.
+	 *
+	 * It is held only to look up or change the connections, never while a callback runs.
+	 */
+	static std::mutex& mutex() {
+		static std::mutex topics_mutex;
+		return topics_mutex;
+	}
+
 	/**
 	 * @brief Provides a list of subscribers (listeners) associated with a topic.
 	 *
diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..b082560 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -58,8 +58,7 @@ public:
 	/**
 	 * @brief Creates a signal and connects.
 	 */
-	Signal(const std::string &topic) : sigslot(NULL) {
-		sigslot = new SigSlot<Data>();
+	Signal(const std::string &topic) : Signal() {
 		connect(topic);
 	}
 
@@ -74,8 +73,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Data>& signal) {
-		*this = signal;
+	Signal(const Signal<Data>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -87,8 +85,7 @@ public:
 	 * up the sigslot connection with the sigslots manager.
 	 */
 	~Signal() {
-		sigslot->decrHandles();
-		if ( sigslot->handles() == 0 ) {
+		if ( sigslot->decrHandles() == 0 ) {
 			delete sigslot;
 		}
 	}
@@ -97,6 +94,10 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		signal.sigslot->incrHandles();
+		if ( sigslot->decrHandles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -167,8 +168,7 @@ public:
 	/**
 	 * @brief Creates a signal and connects.
 	 */
-	Signal(const std::string &topic) : sigslot(NULL) {
-		sigslot = new SigSlot<Void>();
+	Signal(const std::string &topic) : Signal() {
 		connect(topic);
 	}
 	/**
@@ -182,8 +182,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Void>& signal) {
-		*this = signal;
+	Signal(const Signal<Void>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -191,6 +190,10 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		signal.sigslot->incrHandles();
+		if ( sigslot->decrHandles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -202,8 +205,7 @@ public:
 	 * up the sigslot connection with the sigslots manager.
 	 */
 	~Signal() {
-		sigslot->decrHandles();
-		if ( sigslot->handles() == 0 ) {
+		if ( sigslot->decrHandles() == 0 ) {
 			delete sigslot;
 		}
 	}
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..db528c8 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -18,11 +18,15 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
+#include <condition_variable>
 #include <map>
+#include <mutex>
 #include <set>
 #include <string>
+#include <utility>
+#include <vector>
 #include <ecl/config/macros.hpp>
-#include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/function_objects.hpp>
 #include <ecl/utilities/void.hpp>
 #include "manager.hpp"
@@ -90,13 +94,19 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		{
+			// acts like a barrier - holds up here if function still processing stuff.
+			std::unique_lock<std::mutex> lock(SigSlotsManager<Data>::mutex());
+			while ( processing_count != 0 ) {
+				idle.wait(lock);
+			}
+		}
 		delete function;
 	}
 
-	const unsigned int& handles() const { return number_of_handles; } /**< @brief Number of copies of this object. **/
+	unsigned int handles() const { return number_of_handles; } /**< @brief Number of copies of this object. **/
 	void incrHandles() { ++number_of_handles; } /**< @brief Increment the counter for the number of copies of this object. **/
-	void decrHandles() { --number_of_handles; } /**< @brief Decrement the counter for the number of copies of this object. **/
+	unsigned int decrHandles() { return --number_of_handles; } /**< @brief Decrement the counter for the number of copies of this object, returns what is left. **/
 
 	/**
 	 * @brief Emit a signal along with the specified data.
@@ -104,13 +114,24 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit(Data data) {
-		typename PublicationMap::const_iterator topic_iter;
-		typename Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot<Data> *sigslot = *slots_iter;
-				sigslot->process(data);
+		// The callbacks run unlocked (they may connect, disconnect or destroy sigslots), so
+		// work from a snapshot and check that each slot is still there when its turn comes.
+		std::vector< std::pair<std::string, SigSlot<Data>*> > targets;
+		{
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+			typename PublicationMap::const_iterator topic_iter;
+			typename Subscribers::const_iterator slots_iter;
+			for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
+				const Subscribers* subscribers = topic_iter->second;
+				for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
+					targets.push_back(std::make_pair(topic_iter->first, *slots_iter));
+				}
+			}
+		}
+		for ( unsigned int i = 0; i < targets.size(); ++i ) {
+			Processing processing(targets[i].first, targets[i].second);
+			if ( processing.sigslot != NULL ) {
+				processing.sigslot->process(data);
 			}
 		}
 	}
@@ -121,12 +142,7 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
 		(*function)(data);
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -144,7 +160,17 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
-		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Data>::connectSignal(topic,this)) );
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+		std::pair< typename PublicationMap::iterator,bool > ret;
+		ret = publications.insert( std::pair<std::string, const Subscribers*>(topic, NULL) );
+		if ( ret.second ) {
+			try {
+				ret.first->second = SigSlotsManager<Data>::connectSignal(topic,this);
+			} catch ( ... ) {
+				publications.erase(ret.first); // not connected, so don't pretend to be
+				throw;
+			}
+		}
 	}
 	/**
 	 * @brief Connect a slot to the specified topic.
@@ -154,20 +180,26 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void connectSlot(const std::string& topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		std::pair< std::set<std::string>::iterator,bool > ret;
-	//	std::cout << "Topic: " << topic << std::endl;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
 		if ( ret.second ) {
-			SigSlotsManager<Data>::connectSlot(topic,this);
+			try {
+				SigSlotsManager<Data>::connectSlot(topic,this);
+			} catch ( ... ) {
+				subscriptions.erase(ret.first); // not connected, so don't pretend to be
+				throw;
+			}
 		} // else { already subscribed to this topic }
 	}
 	/**
 	 * @brief Disconnect the sigslot from the specified topic.
 	 */
 	void disconnect(const std::string &topic) {
-		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
+		SigSlotsManager<Data>::disconnect(topic,this);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -175,6 +207,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Data>::disconnect(*iter, this);
@@ -190,9 +223,32 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
-	Mutex mutex;
+	/**
+	 * Announces a callback to the destructor of its sigslot for as long as it lives,
+	 * provided that the sigslot is still subscribed to the topic.
+	 */
+	struct Processing {
+		Processing(const std::string& topic, SigSlot<Data>* subscriber) : sigslot(NULL) {
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+			if ( SigSlotsManager<Data>::isSubscribed(topic, subscriber) ) {
+				sigslot = subscriber;
+				++sigslot->processing_count;
+			}
+		}
+		~Processing() {
+			if ( sigslot != NULL ) {
+				std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+				if ( --sigslot->processing_count == 0 ) {
+					sigslot->idle.notify_all();
+				}
+			}
+		}
+		SigSlot<Data>* sigslot;
+	};
+
+	std::condition_variable idle; // signalled when processing_count drops to zero
 	unsigned int processing_count; // number of running process()'
-	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
+	std::atomic<unsigned int> number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
 	PublicationMap publications; // topics this sigslot is posting to, as well as the subscribers on the other end
 
@@ -253,13 +309,19 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		{
+			// acts like a barrier - holds up here if function still processing stuff.
+			std::unique_lock<std::mutex> lock(SigSlotsManager<Void>::mutex());
+			while ( processing_count != 0 ) {
+				idle.wait(lock);
+			}
+		}
 		delete function;
 	}
 
-	const unsigned int& handles() const { return number_of_handles; } /**< @brief Number of copies of this object. **/
+	unsigned int handles() const { return number_of_handles; } /**< @brief Number of copies of this object. **/
 	void incrHandles() { ++number_of_handles; } /**< @brief Increment the counter for the number of copies of this object. **/
-	void decrHandles() { --number_of_handles; } /**< @brief Decrement the counter for the number of copies of this object. **/
+	unsigned int decrHandles() { return --number_of_handles; } /**< @brief Decrement the counter for the number of copies of this object, returns what is left. **/
 
 	/**
 	 * @brief Emit a signal.
@@ -267,13 +329,24 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit() {
-		PublicationMap::const_iterator topic_iter;
-		Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot *sigslot = *slots_iter;
-				sigslot->process();
+		// The callbacks run unlocked (they may connect, disconnect or destroy sigslots), so
+		// work from a snapshot and check that each slot is still there when its turn comes.
+		std::vector< std::pair<std::string, SigSlot<Void>*> > targets;
+		{
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+			PublicationMap::const_iterator topic_iter;
+			Subscribers::const_iterator slots_iter;
+			for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
+				const Subscribers* subscribers = topic_iter->second;
+				for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
+					targets.push_back(std::make_pair(topic_iter->first, *slots_iter));
+				}
+			}
+		}
+		for ( unsigned int i = 0; i < targets.size(); ++i ) {
+			Processing processing(targets[i].first, targets[i].second);
+			if ( processing.sigslot != NULL ) {
+				processing.sigslot->process();
 			}
 		}
 	}
@@ -285,12 +358,7 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
 		(*function)();
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -308,16 +376,32 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
-		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Void>::connectSignal(topic,this)) );
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+		std::pair< PublicationMap::iterator,bool > ret;
+		ret = publications.insert( std::pair<std::string, const Subscribers*>(topic, NULL) );
+		if ( ret.second ) {
+			try {
+				ret.first->second = SigSlotsManager<Void>::connectSignal(topic,this);
+			} catch ( ... ) {
+				publications.erase(ret.first); // not connected, so don't pretend to be
+				throw;
+			}
+		}
 	}
 	/**
 	 * @brief Connect a slot to the specified topic.
 	 */
 	void connectSlot(const std::string& topic){
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		std::pair< std::set<std::string>::iterator,bool > ret;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
 		if ( ret.second ) {
-			SigSlotsManager<Void>::connectSlot(topic,this);
+			try {
+				SigSlotsManager<Void>::connectSlot(topic,this);
+			} catch ( ... ) {
+				subscriptions.erase(ret.first); // not connected, so don't pretend to be
+				throw;
+			}
 		} // else { already subscribed to this topic }
 	}
 	/**
@@ -328,7 +412,9 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void disconnect(const std::string &topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		publications.erase(topic); // Doesn't matter if it finds it or not.
+		subscriptions.erase(topic);
 		SigSlotsManager<Void>::disconnect(topic,this);
 	}
 	/**
@@ -337,6 +423,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Void>::disconnect(*iter, this);
@@ -350,9 +437,32 @@ public:
 	}
 
 private:
-	Mutex mutex;
+	/**
+	 * Announces a callback to the destructor of its sigslot for as long as it lives,
+	 * provided that the sigslot is still subscribed to the topic.
+	 */
+	struct Processing {
+		Processing(const std::string& topic, SigSlot<Void>* subscriber) : sigslot(NULL) {
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+			if ( SigSlotsManager<Void>::isSubscribed(topic, subscriber) ) {
+				sigslot = subscriber;
+				++sigslot->processing_count;
+			}
+		}
+		~Processing() {
+			if ( sigslot != NULL ) {
+				std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+				if ( --sigslot->processing_count == 0 ) {
+					sigslot->idle.notify_all();
+				}
+			}
+		}
+		SigSlot<Void>* sigslot;
+	};
+
+	std::condition_variable idle; // signalled when processing_count drops to zero
 	unsigned int processing_count; // number of running process()'
-	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
+	std::atomic<unsigned int> number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
 	PublicationMap publications; // topics this sigslot is posting to, as well as the subscribers on the other end
 
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..7e5572c 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -69,8 +69,7 @@ public:
 	 * @param f : the global/static function.
 	 * @param topic : the slot topic name to connect to.
 	 */
-	Slot(void (*f)(Data), const std::string &topic) : sigslot(NULL) {
-		sigslot = new SigSlot<Data>(f);
+	Slot(void (*f)(Data), const std::string &topic) : Slot(f) {
 		connect(topic);
 	}
 
@@ -100,8 +99,7 @@ public:
 	 * @param topic : the slot topic name to connect to.
 	 */
 	template <typename C>
-	Slot(void (C::*f)(Data), C &c, const std::string& topic) : sigslot(NULL) {
-		sigslot = new SigSlot<Data>(f,c);
+	Slot(void (C::*f)(Data), C &c, const std::string& topic) : Slot(f,c) {
 		connect(topic);
 	}
 
@@ -116,8 +114,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Data>& slot) {
-		*this = slot;
+	Slot(const Slot<Data>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -129,8 +126,7 @@ public:
 	 * up the sigslot connection with the sigslots manager.
 	 */
 	~Slot() {
-		sigslot->decrHandles();
-		if ( sigslot->handles() == 0 ) {
+		if ( sigslot->decrHandles() == 0 ) {
 			delete sigslot;
 		}
 	}
@@ -138,6 +134,10 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		slot.sigslot->incrHandles();
+		if ( sigslot->decrHandles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
@@ -202,8 +202,7 @@ public:
 	 * @param f : the global/static function.
 	 * @param topic : the slot topic name to connect to.
 	 */
-	Slot(VoidFunction f, const std::string &topic) : sigslot(NULL) {
-		sigslot = new SigSlot<Void>(f);
+	Slot(VoidFunction f, const std::string &topic) : Slot(f) {
 		connect(topic);
 	}
 	/**
@@ -230,8 +229,7 @@ public:
 	 * @param topic : the slot topic name to connect to.
 	 */
 	template <typename C>
-	Slot(void (C::*f)(void), C &c, const std::string &topic) : sigslot(NULL) {
-		sigslot = new SigSlot<Void>(f,c);
+	Slot(void (C::*f)(void), C &c, const std::string &topic) : Slot(f,c) {
 		connect(topic);
 	}
 	/**
@@ -245,8 +243,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Void>& slot) {
-		*this = slot;
+	Slot(const Slot<Void>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 	/**
@@ -257,8 +254,7 @@ public:
 	 * up the sigslot connection with the sigslots manager.
 	 */
 	~Slot() {
-		sigslot->decrHandles();
-		if ( sigslot->handles() == 0 ) {
+		if ( sigslot->decrHandles() == 0 ) {
 			delete sigslot;
 		}
 	}
@@ -266,6 +262,10 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		slot.sigslot->incrHandles();
+		if ( sigslot->decrHandles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
-- 
2.43.0


From 9602657a523911ab235fe4d000a4a358723fc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 17/40] fix: consoles hide failures of line buffered output

---
 ecl_devices/include/ecl/devices/console.hpp |  6 ++++--
 ecl_devices/src/lib/console.cpp             | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/console.hpp b/ecl_devices/include/ecl/devices/console.hpp
index 431b103..3a4a3f9 100644
--- a/ecl_devices/include/ecl/devices/console.hpp
+++ b/ecl_devices/include/ecl/devices/console.hpp
@@ -88,9 +88,10 @@ public:
 	 * @brief Flush the internal buffer.
 	 *
 	 * Flushes the userspace buffers to standard output.
+	 * @return bool : true if all the text has been accepted, false otherwise.
 	 * @exception StandardException : throws if flushing returned an error [debug mode only].
 	 **/
-	void flush();
+	bool flush();
 
 	/**
 	 * @brief Returns the most recent error status.
@@ -165,9 +166,10 @@ public:
 	 * @brief Flush the internal buffer.
 	 *
 	 * Flushes the userspace buffers to standard output.
+	 * @return bool : true if all the text has been accepted, false otherwise.
 	 * @exception StandardException : throws if flushing returned an error [debug mode only].
 	 **/
-	void flush();
+	bool flush();
 
 	/**
 	 * @brief Returns the most recent error status.
diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b57367d..00cd8d5 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -51,13 +51,15 @@ long OConsole::write(const char* s, unsigned long n)
 	return n;
 }
 
-void OConsole::flush() {
+bool OConsole::flush() {
     size_t size = buffer.size();
     size_t no_written = fwrite(buffer.c_str(),1,size,stdout);
     buffer.clear();
 	int result = fflush(stdout);
-	error_handler = ( ( no_written == size ) && ( result == 0 ) ) ? NoError : WriteError;
+	error_handler = ( ( no_written == size ) && ( result == 0 ) && !ferror(stdout) ) ? NoError : WriteError;
+	if ( error_handler.flag() != NoError ) { clearerr(stdout); }
 	ecl_assert_throw ( error_handler.flag() == NoError, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
+	return ( error_handler.flag() == NoError );
 }
 
 /*****************************************************************************
@@ -89,13 +91,15 @@ long EConsole::write(const char* s, unsigned long n)
 	return n;
 }
 
-void EConsole::flush() {
+bool EConsole::flush() {
     size_t size = buffer.size();
     size_t no_written = fwrite(buffer.c_str(),1,size,stderr);
     buffer.clear();
 	int result = fflush(stderr);
-	error_handler = ( ( no_written == size ) && ( result == 0 ) ) ? NoError : WriteError;
+	error_handler = ( ( no_written == size ) && ( result == 0 ) && !ferror(stderr) ) ? NoError : WriteError;
+	if ( error_handler.flag() != NoError ) { clearerr(stderr); }
 	ecl_assert_throw ( error_handler.flag() == NoError, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
+	return ( error_handler.flag() == NoError );
 }
 
 /*****************************************************************************
-- 
2.43.0


From 74a65eb8dea2909793871e4782245309890618ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 18/40] fix: number converters write through NULL when their
 buffer could not be allocated

---
 .../include/ecl/converters/char_strings.hpp           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..87c8e07 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -76,9 +76,11 @@ class CharStringBuffer : public ConverterBase {
          **/
         CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
            	buffer_begin = new (std::nothrow) char[buffer_size];
-            *(buffer_begin + buffer_size - 1) = '\0';
-            buffer_end = buffer_begin + buffer_size - 1;
-           	if ( buffer_begin == NULL ) {
+           	buffer_end = buffer_begin;
+           	if ( buffer_begin != NULL ) {
+                buffer_end = buffer_begin + buffer_size - 1;
+                *buffer_end = '\0';
+           	} else {
            		ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
            		error_handler = ecl::MemoryError;
            	}
@@ -115,6 +117,7 @@ class CharStringBuffer : public ConverterBase {
 template <typename Number>
 char* convertUnsignedIntegral(Number number, char* buffer_begin, char* buffer_end)
 {
+    if ( buffer_end == NULL ) { return NULL; } // there is no buffer
     *(buffer_end) = '\0'; // Set to the null terminator
     Number lsd;
     char* str_ptr = buffer_end;
@@ -688,6 +691,7 @@ class Converter<char*,float> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const float &input, const int& precision = -1){
+        	if ( this->buffer_begin == NULL ) { return NULL; } // there is no buffer
         	if ( precision < 0 ) {
                 format_specifier[1] = 'f';
                 format_specifier[2] = '\0';
@@ -777,6 +781,7 @@ class Converter<char*,double> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const double &input, const int& precision = -1){
+        	if ( this->buffer_begin == NULL ) { return NULL; } // there is no buffer
         	if ( precision < 0 ) {
                 format_specifier[1] = 'f';
                 format_specifier[2] = '\0';
-- 
2.43.0


From 1f6865520630faea371af37abe648bc2991ad212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 19/40] fix: text streams lose text that the device takes in
 parts and hide its failures

---
 .../ecl/streams/manipulators/clear_screen.hpp |  1 +
 .../ecl/streams/manipulators/end_of_line.hpp  |  1 +
 .../text_streams/output_text_stream.hpp       | 73 +++++++++++++++----
 3 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/manipulators/clear_screen.hpp b/ecl_streams/include/ecl/streams/manipulators/clear_screen.hpp
index 91b3b6e..0790ca0 100644
--- a/ecl_streams/include/ecl/streams/manipulators/clear_screen.hpp
+++ b/ecl_streams/include/ecl/streams/manipulators/clear_screen.hpp
@@ -64,6 +64,7 @@ public:
 	void action (interfaces::OutputTextStream<ODevice,true>& ostream) {
 	    for (int i = 0; i < 80; ++i ) {
 	        ostream << "\n";
+	        if ( ostream.fail() ) { return; } // writing on would hide it
 	    }
 	}
 	virtual ~ClearScreen() {}
diff --git a/ecl_streams/include/ecl/streams/manipulators/end_of_line.hpp b/ecl_streams/include/ecl/streams/manipulators/end_of_line.hpp
index 126aa18..4de5ed5 100644
--- a/ecl_streams/include/ecl/streams/manipulators/end_of_line.hpp
+++ b/ecl_streams/include/ecl/streams/manipulators/end_of_line.hpp
@@ -54,6 +54,7 @@ public:
 	template <typename ODevice>
 	void action (interfaces::OutputTextStream<ODevice,true>& ostream) {
 		ostream << "\n";
+		if ( ostream.fail() ) { return; } // flushing would hide it
 		ostream.flush();
 	}
 
diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..23e7345 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(330) // character buffer size, enough for the largest double
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
@@ -141,6 +141,12 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          void flush();
 
     private:
+        void insert(const char *s, unsigned long n);
+        void insertNumber(const char *s);
+        // some devices tell if flushing succeeded, the others never fail
+        template <typename D> static bool flushed(Device &device, bool (D::*f)()) { return (device.*f)(); }
+        template <typename D> static bool flushed(Device &device, void (D::*f)()) { (device.*f)(); return true; }
+
         ecl::Converter<char*> toCharString;
 };
 
@@ -158,7 +164,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char& c ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-	this->io_device.write(c);
+	insert(&c,1);
     return *this;
 }
 /**
@@ -172,7 +178,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const char *s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(s,strlen(s));
+    insert(s,strlen(s));
     return *this;
 }
 
@@ -187,7 +193,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const cha
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const std::string &s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(&s[0],s.size());
+    insert(s.data(),s.size());
     return *this;
 }
 /**
@@ -201,7 +207,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const short &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 /**
@@ -215,7 +221,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const int &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 
@@ -230,7 +236,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const long &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 
@@ -245,7 +251,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const long long &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 
@@ -260,7 +266,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const unsigned short &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 
@@ -275,7 +281,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const unsigned int &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 
@@ -290,7 +296,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const unsigned long &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 /**
@@ -304,7 +310,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const unsigned long long &i )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(i);
+    insertNumber(toCharString(i));
     return *this;
 }
 /**
@@ -332,7 +338,7 @@ template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const float &f )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(f);
+    insertNumber(toCharString(f));
     return *this;
 }
 
@@ -346,7 +352,7 @@ template <typename Device>
 OutputTextStream<Device>&  OutputTextStream<Device,true>::operator << ( const double &d )
 {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    *this << toCharString(d);
+    insertNumber(toCharString(d));
     return *this;
 }
 
@@ -360,7 +366,44 @@ OutputTextStream<Device>&  OutputTextStream<Device,true>::operator << ( const do
 template <typename Device>
 void OutputTextStream<Device,true>::flush() {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-	this->io_device.flush();
+	this->error = WriteError; // stands if the device throws
+	if ( flushed(this->io_device,&Device::flush) ) {
+		this->error = NoError;
+	}
+}
+
+/*****************************************************************************
+** Implementation [OutputTextStream][Private]
+*****************************************************************************/
+/**
+ * @brief Passes all the characters to the device and notes if it refuses any.
+ *
+ * @param s : characters to write.
+ * @param n : number of characters to write.
+ */
+template <typename Device>
+void OutputTextStream<Device,true>::insert(const char *s, unsigned long n) {
+	this->error = WriteError; // stands if the device throws
+	while ( n > 0 ) {
+		long no_written = this->io_device.write(s,n);
+		if ( no_written <= 0 ) { return; }
+		s += no_written;
+		n -= no_written;
+	}
+	this->error = NoError;
+}
+/**
+ * @brief Passes a converted number to the device.
+ *
+ * @param s : the text of the number, NULL if the conversion failed.
+ */
+template <typename Device>
+void OutputTextStream<Device,true>::insertNumber(const char *s) {
+	if ( s == NULL ) {
+		this->error = MemoryError;
+	} else {
+		insert(s,strlen(s));
+	}
 }
 
 } // namespace interfaces
-- 
2.43.0


From 0aaac13020321b78f9f75715bb9568bc8c1c0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 20/40] fix: text streams share parsing buffers between threads
 and refuse or garble valid numbers

---
 .../text_streams/input_text_stream.hpp        | 152 ++++++++----------
 1 file changed, 67 insertions(+), 85 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..b0ba6b9 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -204,9 +204,12 @@ InputTextStream<Device>& InputTextStream<Device,true>::operator >> ( std::string
 	    s.clear();
 	    do {
 	        s.push_back(c);
-	        if( this->io_device.read(c) < 1 ) {
+	        long n = this->io_device.read(c);
+	        if ( n < 0 ) {
 	        	this->error = ReadError;
-	        	break;
+	        	return *this;
+			} else if ( n == 0 ) {
+	        	break; // nothing more to read, the word ends here
 			}
 	    } while ( ( c != ' ' ) && ( c != '\n' ) );
 	    this->error = NoError;
@@ -520,12 +523,12 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
+    const unsigned long long maximum = std::numeric_limits<Number>::max();
+    unsigned long long number = 0;
+    bool out_of_range = false;
+    int no_digits = 0;
 
-    i = 0;
-    int j = 0;
-    while ( j < 25 ) {
+    while ( true ) {
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
@@ -533,32 +536,32 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 		} else if ( n == 0 ) {
 			break; // nothing more to read.
 		}
+    	int digit;
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
         } else {
             break; // No more valid characters to read.
         }
-        ++j;
+        ++no_digits;
+        if ( number > maximum/16 ) {
+        	out_of_range = true;
+        } else {
+        	number = 16*number + digit;
+        }
     }
-    if ( j == 0 ) {
+    if ( no_digits == 0 ) {
     	this->error = ReadError;
     	return false;
 	}
-
-    short number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range || ( number > maximum ) ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
-    i = number;
+    i = static_cast<Number>(number);
     return true;
 }
 
@@ -571,17 +574,19 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
+    unsigned long long maximum = std::numeric_limits<Number>::max();
+    unsigned long long number = 0;
+    bool negative = false;
+    bool out_of_range = false;
+    int no_digits = 0;
     char c = ' ';
-    Number sign_multiplier = 1;
-    Number number;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
     if ( c == '-' ) { // Negative
 		if ( std::numeric_limits<Number>::min() != 0 ) {
-            sign_multiplier = -1;
+            negative = true;
+            maximum += 1; // magnitude of the minimum
             if ( this->io_device.read(c) < 1 ) {
             	this->error = ReadError;
             	return false;
@@ -594,17 +599,16 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 		}
     } else if ( c == '0' ) {
     	long n = this->io_device.read(c);
-    	if ( ( n == 0 ) || ( c == ' ' ) || ( c == '\n' ) ) { // It's just a single zero.
-        	i = 0;
-        	return true;
-        } else if ( n < 0 ) {
+    	if ( n < 0 ) {
         	this->error = ReadError;
         	return false;
+		} else if ( n == 0 ) { // It's just a single zero.
+        	i = 0;
+        	return true;
 		} else if ( c == 'x' ) {
             return parseHexInteger(i);
-        } else {
-        	// its a regular integer, just continue
         }
+    	no_digits = 1; // its a regular integer, just continue
     } else if ( c == 'x' ) {
         return parseHexInteger(i);
     }
@@ -612,10 +616,14 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     /*********************
     ** Parse reg. integer
     **********************/
-    int j = 0;
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
-        j++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        const unsigned int digit = c - '0';
+        ++no_digits;
+        if ( number > ( maximum - digit )/10 ) {
+        	out_of_range = true;
+        } else {
+        	number = 10*number + digit;
+        }
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError;
@@ -625,22 +633,15 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 		} else { // n > 1
         }
     }
-    if ( j == 0 ) {
+    if ( no_digits == 0 ) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    for ( int k = 0; k < j; ++k )
-    {
-        if ( number < ceiling )
-        {
-            number = 10*number + (digits[k] - '0');
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
-    i = sign_multiplier*number;
+    i = static_cast<Number>(negative ? 0 - number : number);
 
     return true;
 }
@@ -648,13 +649,11 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
     int integral_length = 0;
     int decimal_length = 0;
-    Number sign_multiplier = 1;
-    Number number;
+    double sign_multiplier = 1;
+    double number = 0;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
@@ -664,54 +663,37 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     } else if ( c == '+' ) {
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
     }
-    number = 0;
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
-        long n = this->io_device.read(c);
-		if ( n < 0 ) {
-			this->error = ReadError; return false;
-		} else if ( n == 0 ) {
-			break;
-		} else { // n > 1
-			integral_length++;
-        }
-    }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
+    long n = 1;
+    while ( ( n > 0 ) && ( c >= '0' ) && ( c <= '9') ) {
+        number = 10*number + (c - '0');
+        integral_length++;
+        n = this->io_device.read(c);
     }
 
-    if ( c == '.' ) {
-        float frac_multiplier = 1;
-        if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
+    if ( ( n > 0 ) && ( c == '.' ) ) {
+        double frac_multiplier = 1;
         /******************************************
         ** Decimal part
         *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
-            long n = this->io_device.read(c);
-    		if ( n < 0 ) {
-    			this->error = ReadError; return false;
-    		} else if ( n == 0 ) {
-    			break;
-    		} else { // n > 1
-                decimal_length++;
-            }
-        }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
-            number = number + frac_multiplier*(digits[k] - '0');
+        n = this->io_device.read(c);
+        while ( ( n > 0 ) && ( c >= '0' ) && ( c <= '9') ) {
+            frac_multiplier *= 0.1;
+            number = number + frac_multiplier*(c - '0');
+            decimal_length++;
+            n = this->io_device.read(c);
         }
     }
+    if ( n < 0 ) { this->error = ReadError; return false; }
 
     if ( (integral_length+decimal_length) == 0 ) {
     	this->error = ConversionError;
     	return false;
 	}
 
-    f = sign_multiplier*number;
+    f = static_cast<Number>(sign_multiplier*number);
 
     return true;
 }
-- 
2.43.0


From 8c4358df4befc100b1b9bac5be62a1fad2001559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 21/40] fix: default constructed log streams are uninitialised,
 enabling a mode again keeps its old header

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 2 +-
 ecl_streams/src/lib/log_stream.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..e678425 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,7 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() : write_header(true), write_stamp(true) {};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From 874e92e9e3b0b036591e86cf40ee238351cd8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 22/40] fix: formatters share buffers between threads, truncate
 long numbers and leak temporary settings

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 16 +++++++---------
 ecl_formatters/include/ecl/formatters/number.hpp |  4 +++-
 .../include/ecl/formatters/strings.hpp           |  2 +-
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..1c1cef0 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -320,14 +320,13 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
     width_ = &tmp_width;
+    alignment_ = &tmp_alignment;
+    align(prm_alignment);
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
     base_ = &tmp_base;
     base(prm_base);
 
@@ -340,14 +339,13 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
     width_ = &tmp_width;
+    alignment_ = &tmp_alignment;
     width(w);
+    align(a);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(a);
-
     base_ = &tmp_base;
     base(b);
 
@@ -364,7 +362,7 @@ template <typename Number>
   template <typename OutputStream>
 void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
 {
-    static char format_specifier[6] = "%.xff";
+    char format_specifier[6] = "%.xff";
     if ( *precision_ < 10 ) {
         format_specifier[2] = '0'+*precision_;
         format_specifier[3] = 'f';
@@ -378,8 +376,8 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[3] = '0';
         format_specifier[4] = 'f';
     }
-    static const int buffer_size = 30;
-    static char buffer[buffer_size];
+    static const int buffer_size = 350; // enough for the largest double
+    char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
 
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..71f0e53 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -256,7 +256,8 @@ template <typename Number>
   template <typename OutputStream>
 void FormatNumber<Number>::formatDec(OutputStream &ostream) const
 {
-    static ecl::Converter<char*> convert;
+    char buffer[30]; // 20 is the maximum needed on a 64 bit system for a long type
+    ecl::Converter<char*> convert(buffer, buffer + sizeof(buffer) - 1);
     char *s = convert(value_);
     int size = strlen(s);
     prePad(*width_ - size,ostream);
@@ -331,6 +332,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
     base(b);
+    align(prm_alignment);
     width(w);
     value_ = n;
     ready_to_format = true;
diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..304f84e 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
-- 
2.43.0


From 3554005c5dbf474ec09128bcbf83e9be5274f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:08 +0000
Subject: [PATCH 23/40] fix: containers lose or corrupt their content when
 memory or a copy fails, on self assignment, resizing and copying; windows
 refuse their first element

---
 .../array/array_dynamic_no_mem_check.hpp      | 21 +++++++++++-----
 .../include/ecl/containers/fifo.hpp           |  9 +++----
 .../push_and_pop/push_and_pop_dynamic.hpp     | 19 +++++++--------
 .../push_and_pop/push_and_pop_fixed.hpp       | 14 +++++------
 .../containers/stencil/specialisations.hpp    | 24 +++++++++----------
 .../ecl/containers/stencil/stencil.hpp        | 19 +++++++--------
 6 files changed, 57 insertions(+), 49 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..2a72e59 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -178,8 +178,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         	buffer(NULL)
 		{
         	if ( array.size() != 0 ) {
-				resize(array.size());
-				std::copy(array.begin(),array.end(),begin());
+				Array<Type,DynamicStorage> copy(array.buffer_size); // cleans up if copying an element throws
+				std::copy(array.begin(),array.end(),copy.begin());
+				swap(copy);
         	}
         }
         /**
@@ -209,7 +210,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
             // conveniently convert types correctly
             // (e.g. Array<double> array(4); array = 1,2,3,4; will fail)
             ecl_compile_time_concept_check(BluePrintConcept<T>);
-            blueprint.implementApply(*this);
+            Array<Type,DynamicStorage> array; // cleans up if copying an element throws
+            blueprint.implementApply(array);
+            swap(array);
         }
         /**
          * @brief Default destructor.
@@ -245,8 +248,8 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-				resize(array.size());
-				std::copy(array.begin(),array.end(),begin());
+				Array<Type,DynamicStorage> copy(array); // it may be this very array, and copying may throw
+				swap(copy);
         	}
         }
 
@@ -481,10 +484,11 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n ) {
+            Type *new_buffer = new Type[n]; // if this throws, the array stays as it was
             if ( buffer != NULL ) {
                 delete[] buffer;
             }
-            buffer = new Type[n];
+            buffer = new_buffer;
             buffer_size = n;
         }
         /**
@@ -514,6 +518,11 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         friend OutputStream& operator<<(OutputStream &ostream , const Array<ElementType,DynamicStorage> &array);
 
     private:
+        void swap(Array<Type,DynamicStorage>& array) {
+            std::swap(buffer_size,array.buffer_size);
+            std::swap(buffer,array.buffer);
+        }
+
         unsigned int buffer_size;
         Type *buffer;
 
diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..ced4e13 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -141,8 +141,8 @@ public:
 	 * @param datum : incoming value.
 	 */
 	void push_back( const T & datum ) {
-		data[ running_index++ ] = datum;
-		running_index %= size_fifo;
+		data[ running_index ] = datum;
+		running_index = (running_index+1)%size_fifo;
 	}
 
 	/**
@@ -165,9 +165,10 @@ public:
 	 * @exception StandardException : throws if a zero sized storage is specified.
 	 */
 	void resize( unsigned int length ) {
+		ecl_assert_throw( (length>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+		data.resize( length );
 		size_fifo = length;
-		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
-		data.resize( size_fifo );
+		running_index = 0;
 	}
 
 private:
diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..a2515b7 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -207,12 +207,10 @@ public:
 
   void operator() (const PushAndPop<Type,0> & otherOne )
   {
+    data = otherOne.data;
+    size_fifo = otherOne.size_fifo;
     leader = otherOne.leader;
     follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
-    {
-      data[i] = otherOne.data[i];
-    }
   }
 
   /**
@@ -223,8 +221,8 @@ public:
    */
   void push_back( const Type & datum )
   {
-    data[ leader++ ] = datum;
-    leader %= size_fifo;
+    data[ leader ] = datum;
+    leader = (leader+1)%size_fifo;
     if( leader == follower )
     {
       follower++;
@@ -236,8 +234,8 @@ public:
   Type pop_front()
   {
     ecl_assert_throw( (follower != leader), StandardException(LOC, OutOfRangeError, "PushAndPop follower==leader"));
-    Type value = data[follower++];
-    follower %= size_fifo;
+    Type value = data[follower];
+    follower = (follower+1)%size_fifo;
     return value;
   }
 
@@ -248,9 +246,10 @@ public:
 
   void resize( unsigned int length )
   {
+    ecl_assert_throw( (length+1>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+    data.resize( length+1 );
     size_fifo = length+1;
-    ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
-    data.resize( size_fifo );
+    clear();
   }
 
   /**
diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp
index cd5ef24..5005a56 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp
@@ -110,12 +110,12 @@ public:
 
   void operator() (const PushAndPop<Type,Size> & otherOne )
   {
-    leader = otherOne.leader;
-    follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
+    for( unsigned int i=0; i<size_fifo; i++ )
     {
       data[i] = otherOne.data[i];
     }
+    leader = otherOne.leader;
+    follower = otherOne.follower;
   }
 
   /**
@@ -126,8 +126,8 @@ public:
    */
   void push_back( const Type & datum )
   {
-    data[ leader++ ] = datum;
-    leader %= size_fifo;
+    data[ leader ] = datum;
+    leader = (leader+1)%size_fifo;
     if( leader == follower )
     {
       follower++;
@@ -139,8 +139,8 @@ public:
   Type pop_front()
   {
     ecl_assert_throw( (follower != leader), StandardException(LOC, OutOfRangeError, "PushAndPop follower==leader"));
-    Type value = data[follower++];
-    follower %= size_fifo;
+    Type value = data[follower];
+    follower = (follower+1)%size_fifo;
     return value;
   }
 
diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..de8553f 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -139,10 +139,10 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
+    ecl_assert_throw((array+start_index <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((array+start_index+n <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array+start_index;
     e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /*********************
@@ -330,7 +330,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -347,7 +347,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -362,7 +362,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,7 +386,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -553,10 +553,10 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
+    ecl_assert_throw((array+start_index <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((array+start_index+n <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array+start_index;
     e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
@@ -723,7 +723,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -740,7 +740,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -755,7 +755,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,7 +779,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..297473b 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -181,10 +181,9 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
-    b_iter = array.begin()+start_index;
-    e_iter = array.begin()+start_index+n;
-    ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    Stencil<Array> settled(array,start_index,n); // throws if the range is not in the array
+    b_iter = settled.b_iter;
+    e_iter = settled.e_iter;
   }
 
   /*********************
@@ -203,9 +202,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
@@ -398,7 +397,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -415,7 +414,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -430,7 +429,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,7 +453,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From dcaf1cbd93a4f57823d23ab94d847f6ce3994373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 24/40] fix: realpath leaks its buffer on failure and
 overwrites the answer with an uninitialised one

---
 ecl_filesystem/src/lib/realpath.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ecl_filesystem/src/lib/realpath.cpp b/ecl_filesystem/src/lib/realpath.cpp
index 4bc7922..5232f20 100644
--- a/ecl_filesystem/src/lib/realpath.cpp
+++ b/ecl_filesystem/src/lib/realpath.cpp
@@ -45,11 +45,17 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
 
   char *buffer = new char[path_max];
   char *result = ::realpath(path.c_str(), buffer);
-  absolute_path = buffer;
   if ( result != NULL ) {
-    absolute_path = buffer;
+    try {
+      absolute_path = buffer;
+    } catch (...) { // no memory for the result
+      delete[] buffer;
+      throw;
+    }
   } else {
-    switch(errno) {
+    int error = errno;
+    delete[] buffer;
+    switch(error) {
       case(EACCES)       : { return Error(PermissionsError); }   // Read or search permission was denied for a component of the path prefix.
       case(EINVAL)       : { return Error(InvalidArgError); }    // path is NULL
       case(EIO)          : { return Error(ReadError); }          // An I/O error occurred while reading from the filesystem.
-- 
2.43.0


From efdfbd2b455552c2579b7ce13e15cc56cb6c61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 25/40] fix: RandomNumberGenerator: a generator keeps its spare
 gaussian value to itself and never takes log(0)

The spare value of the polar method was a static shared by all generators and threads: seeding again did not give the
same numbers again, and two threads could get the same number. Two draws of exactly one half made gaussian() nan.
---
 .../include/ecl/time/random_number_generator.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 37c2ed4..c3f7525 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -38,12 +38,16 @@ template<typename T>
 class RandomNumberGenerator
 {
 public:
-  RandomNumberGenerator( const unsigned int randSeed )
+  RandomNumberGenerator( const unsigned int randSeed ) :
+    y2(0),
+    use_last(false)
   {
     srand( randSeed );
   }
 
-  RandomNumberGenerator()
+  RandomNumberGenerator() :
+    y2(0),
+    use_last(false)
   {
     RandomNumberGenerator::seed();
   }
@@ -61,8 +65,6 @@ public:
   T gaussian( const T & std, const T & mu = 0 )
   {
     T x1, x2, w, y1;
-    static T y2;
-    static bool use_last = false;
 
     if (use_last)  /* use value from previous call */
     {
@@ -75,7 +77,7 @@ public:
           x1 = 2.0 * uniform() - 1.0;
           x2 = 2.0 * uniform() - 1.0;
           w = x1 * x1 + x2 * x2;
-      } while ( w >= 1.0 );
+      } while ( w >= 1.0 || w == 0.0 ); // the logarithm of zero is no number
 
       w = std::sqrt( (-2.0 * std::log( w ) ) / w );
       y1 = x1 * w;
@@ -127,6 +129,10 @@ private:
     c=c-a;  c=c-b;  c=c^(b >> 15);
     srand(c);
   }
+
+  // value kept for the next call to gaussian(), belongs to the generator (and its seed)
+  T y2;
+  bool use_last;
 };
 
 } // namespace ecl
-- 
2.43.0


From a56505f62290b4544cf2a3ecca38dae3df2a2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 26/40] fix: formatters of float containers print empty
 containers

The automatic width was taken from the first element even if there was none: an exception in
debug builds, a read beyond the storage in release builds.
---
 .../include/ecl/containers/common/formatters.hpp           | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..0d35d9e 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -220,7 +220,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
-    if ( *(formatter.width_ptr) == -1 ) {
+    if ( ( *(formatter.width_ptr) == -1 ) && ( formatter.container->size() > 0 ) ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -246,10 +246,9 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
     /*********************
     ** Stream
     **********************/
-    typename Container_::const_iterator iter;
     ostream << "[ ";
-    for ( iter = formatter.container->begin(); iter != formatter.container->end(); ++iter ) {
-        ostream << formatter.format(*iter) << " ";
+    for ( unsigned int i = 0; i < formatter.container->size(); ++i ) { // it may be empty, without any storage
+        ostream << formatter.format((*formatter.container)[i]) << " ";
     }
     ostream << "]";
 
-- 
2.43.0


From 862f493bbea7272a4fcb63c3ea4054749849b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 27/40] fix: precision() and width() of float formats are const

FloatContainerFormatter::precision() const could not be compiled.
---
 ecl_formatters/include/ecl/formatters/floats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 1c1cef0..0225024 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -130,14 +130,14 @@ public:
 	 * @brief Returns the current precision setting.
 	 * @return int : the precision value.
 	 */
-	int precision() { return *precision_; }
+	int precision() const { return *precision_; }
 
 	/**
 	 * @brief Returns the current precision setting.
 	 *
 	 * @return int : the width value (-1 for no constraint).
 	 */
-	int width() { return *width_; }
+	int width() const { return *width_; }
 
 	/******************************************
 	 * Set Format Combinations
-- 
2.43.0


From 2c21833c58664f6fd0bf0863c2773913b4c8ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:29 +0000
Subject: [PATCH 28/40] fix: temporary formatting parameters end with their
 value, also if the stream throws

They stayed in force for the values after it.
---
 .../ecl/containers/common/formatters.hpp      | 28 +++++++++++--------
 .../include/ecl/formatters/floats.hpp         | 23 +++++++++------
 .../include/ecl/formatters/number.hpp         | 19 +++++++++----
 3 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 0d35d9e..0a4fa9e 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -179,6 +179,20 @@ class ECL_LOCAL FloatContainerFormatter {
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
+
+        // Ends a formatting, even if the stream throws: temporary parameters are for one printing only.
+        struct Finish {
+            Finish(FloatContainerFormatter& f) : formatter(f) {}
+            ~Finish() {
+                if ( formatter.old_precision != -1 ) {
+                    formatter.format.precision(formatter.old_precision);
+                    formatter.old_precision = -1;
+                }
+                formatter.width_ptr = &(formatter.prm_width);
+                formatter.ready_to_format = false;
+            }
+            FloatContainerFormatter& formatter;
+        };
 };
 
 /**
@@ -220,6 +234,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
+    typename FloatContainerFormatter< Container_ >::Finish finish(formatter);
+
     if ( ( *(formatter.width_ptr) == -1 ) && ( formatter.container->size() > 0 ) ) {
         /******************************************
         ** Compute min,max coefficients
@@ -251,18 +267,6 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         ostream << formatter.format((*formatter.container)[i]) << " ";
     }
     ostream << "]";
-
-    /*********************
-    ** Reset if temporary
-    **********************/
-    if ( formatter.old_precision != -1 ) {
-        formatter.format.precision(formatter.old_precision);
-        formatter.old_precision = -1;
-
-    }
-    formatter.width_ptr = &(formatter.prm_width);
-    formatter.ready_to_format = false;
-
     ostream.flush();
     return ostream;
 }
diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 0225024..26c7aba 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -222,6 +222,19 @@ protected:
 	bool ready_to_format;
 	Number value_;
 
+	// Ends a formatting, even if the stream throws: temporary parameters are for one value only.
+	struct Finish {
+		Finish(FormatFloat<Number>& f) : formatter(f) {}
+		~Finish() {
+			formatter.width_ = &(formatter.prm_width);
+			formatter.precision_ = &(formatter.prm_precision);
+			formatter.alignment_ = &(formatter.prm_alignment);
+			formatter.base_ = &(formatter.prm_base);
+			formatter.ready_to_format = false;
+		}
+		FormatFloat<Number>& formatter;
+	};
+
 	/******************************************
 	** Padding
 	*******************************************/
@@ -454,6 +467,7 @@ OutputStream& operator << (OutputStream &ostream, FormatFloat<N>& formatter )
 
     if ( ready )
     {
+        typename FormatFloat<N>::Finish finish(formatter);
         switch(*(formatter.base_) )
         {
             case(Fixed) : {
@@ -465,15 +479,6 @@ OutputStream& operator << (OutputStream &ostream, FormatFloat<N>& formatter )
                 break;
             }
         }
-
-        // Switch pointers back to prms if not already there.
-        if ( formatter.width_ != &(formatter.prm_width) ) {
-            formatter.width_ = &(formatter.prm_width);
-            formatter.precision_ = &(formatter.prm_precision);
-            formatter.alignment_ = &(formatter.prm_alignment);
-            formatter.base_ = &(formatter.prm_base);
-        }
-        formatter.ready_to_format = false;
     }
     return ostream;
 }
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 71f0e53..7219613 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -163,6 +163,18 @@ class FormatNumber {
         bool ready_to_format;
         Number value_;
 
+        // Ends a formatting, even if the stream throws: temporary parameters are for one value only.
+        struct Finish {
+            Finish(FormatNumber<Number>& f) : formatter(f) {}
+            ~Finish() {
+                formatter.width_ = &(formatter.prm_width);
+                formatter.alignment_ = &(formatter.prm_alignment);
+                formatter.base_ = &(formatter.prm_base);
+                formatter.ready_to_format = false;
+            }
+            FormatNumber<Number>& formatter;
+        };
+
         /******************************************
         ** Padding
         *******************************************/
@@ -372,6 +384,7 @@ OutputStream& operator << (OutputStream &ostream, FormatNumber<N>& formatter )
 
     if ( ready )
     {
+        typename FormatNumber<N>::Finish finish(formatter);
         switch(*(formatter.base_) )
         {
             case(Bin) : {
@@ -387,12 +400,6 @@ OutputStream& operator << (OutputStream &ostream, FormatNumber<N>& formatter )
                 break;
             }
         }
-        if ( formatter.width_ != &(formatter.prm_width) ) {
-            formatter.width_ = &(formatter.prm_width);
-            formatter.alignment_ = &(formatter.prm_alignment);
-            formatter.base_ = &(formatter.prm_base);
-        }
-        formatter.ready_to_format = false;
     }
     return ostream;
 }
-- 
2.43.0


From 5c424613317962ae119c4ae80319928391e3e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 29/40] fix: formatters insert a formatted value as one text

Each character was an insertion of its own, so a device failing once in the middle left
a hole (another number) in the text while the stream, which tells about its last
insertion only, showed no failure.
---
 .../include/ecl/formatters/common.hpp         | 24 +++++++++++++++++++
 .../include/ecl/formatters/floats.hpp         |  6 +++--
 .../include/ecl/formatters/number.hpp         |  8 ++++---
 .../include/ecl/formatters/strings.hpp        |  4 +++-
 4 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/common.hpp b/ecl_formatters/include/ecl/formatters/common.hpp
index 34e2456..db01143 100644
--- a/ecl_formatters/include/ecl/formatters/common.hpp
+++ b/ecl_formatters/include/ecl/formatters/common.hpp
@@ -12,6 +12,12 @@
 #ifndef ECL_FORMATTERS_COMMON_HPP_
 #define ECL_FORMATTERS_COMMON_HPP_
 
+/*****************************************************************************
+** Includes
+*****************************************************************************/
+
+#include <string>
+
 /*****************************************************************************
 ** Namespaces
 *****************************************************************************/
@@ -34,6 +40,24 @@ enum Alignment
     CentreAlign,    /**< @brief Align in the centre. **/
 };
 
+/*****************************************************************************
+** Text
+*****************************************************************************/
+/**
+ * @brief Collects formatted text.
+ *
+ * Formatters hand a stream the complete text in one insertion - the state of a
+ * stream tells about the last insertion only, so pieces of it could get lost unnoticed.
+ **/
+struct FormattedText {
+    FormattedText& operator<<(const char c) { text += c; return *this; }
+    FormattedText& operator<<(const char* s) { text += s; return *this; }
+    FormattedText& operator<<(const std::string& s) { text += s; return *this; }
+    void flush() {}
+
+    std::string text;
+};
+
 /*****************************************************************************
 ** Default precision widths
 *****************************************************************************/
diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 26c7aba..7007e3c 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -468,17 +468,19 @@ OutputStream& operator << (OutputStream &ostream, FormatFloat<N>& formatter )
     if ( ready )
     {
         typename FormatFloat<N>::Finish finish(formatter);
+        FormattedText text;
         switch(*(formatter.base_) )
         {
             case(Fixed) : {
-                formatter.formatFixed(ostream);
+                formatter.formatFixed(text);
                 break;
             }
             case(Sci) : {
-                formatter.formatSci(ostream);
+                formatter.formatSci(text);
                 break;
             }
         }
+        ostream << text.text;
     }
     return ostream;
 }
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 7219613..d4218bd 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -385,21 +385,23 @@ OutputStream& operator << (OutputStream &ostream, FormatNumber<N>& formatter )
     if ( ready )
     {
         typename FormatNumber<N>::Finish finish(formatter);
+        FormattedText text;
         switch(*(formatter.base_) )
         {
             case(Bin) : {
-                formatter.formatBin(ostream);
+                formatter.formatBin(text);
                 break;
             }
             case(Hex) : {
-                formatter.formatHex(ostream);
+                formatter.formatHex(text);
                 break;
             }
             case(Dec) : {
-                formatter.formatDec(ostream);
+                formatter.formatDec(text);
                 break;
             }
         }
+        ostream << text.text;
     }
     return ostream;
 }
diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index 304f84e..d50ede8 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -231,8 +231,10 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
             "in the same stream sequence, so this is not permitted here.") );
 
     if ( ready ) {
-        formatter.format(ostream);
+        FormattedText text;
+        formatter.format(text);
         formatter.ready_to_format = false;
+        ostream << text.text;
     }
 
     return ostream;
-- 
2.43.0


From 8771be83b97c47ad9672b6d9c623a50dd00dc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:04 +0000
Subject: [PATCH 30/40] fix: timeouts and refused permissions of sockets are
 reported as such

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp | 6 +++---
 ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..42b6fee 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +187,8 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES )      :
+      case ( EPERM )       : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..7061718 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +119,6 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +178,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES )      :
+        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0


From e71bda9fcdac29891c50e4afda796f1490f41c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 31/40] fix: socket, semaphore and shared memory exceptions
 tell where the operation failed

---
 .../detail/socket_exception_handler_pos.cpp   | 162 +++++++++---------
 ecl_ipc/src/lib/semaphore_pos.cpp             |  22 +--
 ecl_ipc/src/lib/shared_memory_pos.cpp         |  24 +--
 3 files changed, 104 insertions(+), 104 deletions(-)

diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 7061718..18b8ed4 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -33,14 +33,14 @@ namespace devices {
 
 StandardException socket_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,OpenError,"Unable to open socket. Permission to create is denied.");
-        case ( EAFNOSUPPORT): return StandardException(LOC,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
-        case ( EINVAL )     : return StandardException(LOC,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
-        case ( EMFILE )     : return StandardException(LOC,OutOfRangeError,"Unable to open socket. Process file table overflow.");
-        case ( ENFILE )     : return StandardException(LOC,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
-        case ( ENOBUFS )    : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( EPROTONOSUPPORT )    : return StandardException(LOC,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
+        case ( EACCES )     : return StandardException(loc,OpenError,"Unable to open socket. Permission to create is denied.");
+        case ( EAFNOSUPPORT): return StandardException(loc,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
+        case ( EINVAL )     : return StandardException(loc,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
+        case ( EMFILE )     : return StandardException(loc,OutOfRangeError,"Unable to open socket. Process file table overflow.");
+        case ( ENFILE )     : return StandardException(loc,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
+        case ( ENOBUFS )    : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( EPROTONOSUPPORT )    : return StandardException(loc,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown errno [" << errno << "]";
@@ -51,19 +51,19 @@ StandardException socket_exception(const char* loc) {
 
 StandardException bind_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
-        case ( EADDRINUSE ) : return StandardException(LOC,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
-        case ( EBADF )      : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
-        case ( EINVAL )     : return StandardException(LOC,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
-        case ( ENOTSOCK )   : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
-        case ( EADDRNOTAVAIL ) : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
-        case ( EFAULT )     : return StandardException(LOC,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
-        case ( ELOOP )      : return StandardException(LOC,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
-        case ( ENAMETOOLONG )  : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. Address is too long.");
-        case ( ENOENT )     : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
-        case ( ENOTDIR )    : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
-        case ( EROFS )      : return StandardException(LOC,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
+        case ( EACCES )     : return StandardException(loc,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
+        case ( EADDRINUSE ) : return StandardException(loc,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
+        case ( EBADF )      : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
+        case ( EINVAL )     : return StandardException(loc,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
+        case ( ENOTSOCK )   : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
+        case ( EADDRNOTAVAIL ) : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
+        case ( EFAULT )     : return StandardException(loc,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
+        case ( ELOOP )      : return StandardException(loc,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
+        case ( ENAMETOOLONG )  : return StandardException(loc,InvalidArgError,"Unable to bind the socket. Address is too long.");
+        case ( ENOENT )     : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
+        case ( ENOTDIR )    : return StandardException(loc,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
+        case ( EROFS )      : return StandardException(loc,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -74,20 +74,20 @@ StandardException bind_exception(const char* loc) {
 
 StandardException accept_exception(const char* loc) {
     switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
-		case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
-		case ( ECONNABORTED ): return StandardException(LOC,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
-		case ( EINTR )       : return StandardException(LOC,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
-		case ( EINVAL )      : return StandardException(LOC,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
-		case ( EMFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
-		case ( EOPNOTSUPP )  : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
-		case ( EFAULT )      : return StandardException(LOC,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
-		case ( ENOBUFS )     : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( ENOMEM )      : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( EPROTO )      : return StandardException(LOC,InvalidArgError,"Unable to accept client connection. Protocol error.");
-		case ( EPERM )       : return StandardException(LOC,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
+		case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
+		case ( ECONNABORTED ): return StandardException(loc,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
+		case ( EINTR )       : return StandardException(loc,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
+		case ( EINVAL )      : return StandardException(loc,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
+		case ( EMFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
+		case ( EOPNOTSUPP )  : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
+		case ( EFAULT )      : return StandardException(loc,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
+		case ( ENOBUFS )     : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( ENOMEM )      : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( EPROTO )      : return StandardException(loc,InvalidArgError,"Unable to accept client connection. Protocol error.");
+		case ( EPERM )       : return StandardException(loc,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -99,15 +99,15 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
-		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
+		case ( ECONNREFUSED) : return StandardException(loc,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to read the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -119,21 +119,21 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
-		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
-		case ( ECONNRESET  ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
-		case ( EISCONN     ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Connection mismatch???");
-		case ( EMSGSIZE    ) : return StandardException(LOC,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
-		case ( ENOBUFS     ) : return StandardException(LOC,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
-		case ( EOPNOTSUPP  ) : return StandardException(LOC,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
-		case ( EPIPE       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+		case ( EACCES      ) : return StandardException(loc,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
+		case ( ECONNRESET  ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
+		case ( EISCONN     ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Connection mismatch???");
+		case ( EMSGSIZE    ) : return StandardException(loc,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
+		case ( ENOBUFS     ) : return StandardException(loc,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
+		case ( EOPNOTSUPP  ) : return StandardException(loc,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
+		case ( EPIPE       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -145,10 +145,10 @@ StandardException send_exception(const char* loc) {
 StandardException ioctl_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
-		case ( EFAULT      ) : return StandardException(LOC,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
-		case ( ENOTTY      ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
+		case ( EFAULT      ) : return StandardException(loc,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
+		case ( ENOTTY      ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -163,11 +163,11 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 			std::string header;
 			header += "Unable to correctly determine the server hostname: ";
 			header += hostname;
-			return StandardException(LOC,OpenError,header);
+			return StandardException(loc,OpenError,header);
 		}
-		case ( TRY_AGAIN ) : return StandardException(LOC, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
-		case ( NO_ADDRESS )  : return StandardException(LOC,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
-		case ( NO_RECOVERY ) : return StandardException(LOC,UnknownError);
+		case ( TRY_AGAIN ) : return StandardException(loc,OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
+		case ( NO_ADDRESS )  : return StandardException(loc,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
+		case ( NO_RECOVERY ) : return StandardException(loc,UnknownError);
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << h_errno << "]";
@@ -179,21 +179,21 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
         case ( EACCES )      :
-        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
-        case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
-        case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
-        case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-        case ( EALREADY )    : return StandardException(LOC,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
-        case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Not a valid socket descriptor.");
-        case ( ECONNREFUSED ): return StandardException(LOC,ConnectionRefusedError,"Connection refused (no-one listening).");
-        case ( EFAULT )      : return StandardException(LOC,OutOfRangeError,"Socket specification is outside the user address space.");
-        case ( EINPROGRESS ) : return StandardException(LOC,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
-        case ( EINTR )       : return StandardException(LOC,InterruptedError,"Connection interrupted by a system signal.");
-        case ( EISCONN )     : return StandardException(LOC,ConnectionError,"This socket is already connected.");
+        case ( EPERM )       : return StandardException(loc,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EADDRINUSE )  : return StandardException(loc,BusyError,"Address already in use.");
+        case ( EAFNOSUPPORT ): return StandardException(loc,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
+        case ( EAGAIN )      : return StandardException(loc,OutOfResourcesError,"No free local ports remaining.");
+        case ( EALREADY )    : return StandardException(loc,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
+        case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Not a valid socket descriptor.");
+        case ( ECONNREFUSED ): return StandardException(loc,ConnectionRefusedError,"Connection refused (no-one listening).");
+        case ( EFAULT )      : return StandardException(loc,OutOfRangeError,"Socket specification is outside the user address space.");
+        case ( EINPROGRESS ) : return StandardException(loc,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
+        case ( EINTR )       : return StandardException(loc,InterruptedError,"Connection interrupted by a system signal.");
+        case ( EISCONN )     : return StandardException(loc,ConnectionError,"This socket is already connected.");
         case ( ENETUNREACH ) :
-        case ( EHOSTUNREACH ): return StandardException(LOC,NotFoundError,"The host is unreachable.");
-        case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"This is not a socket file descriptor.");
-        case ( ETIMEDOUT )   : return StandardException(LOC,TimeOutError,"Timed out.");
+        case ( EHOSTUNREACH ): return StandardException(loc,NotFoundError,"The host is unreachable.");
+        case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"This is not a socket file descriptor.");
+        case ( ETIMEDOUT )   : return StandardException(loc,TimeOutError,"Timed out.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 3a03663..555ffbc 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -208,28 +208,28 @@ ecl::StandardException openSemaphoreException(const char* loc) {
 	int error_result = errno;
     switch ( error_result ) {
         case ( EACCES ) : {
-            return StandardException(LOC,PermissionsError,"The semaphore exists, but permission to open has been denied.");
+            return StandardException(loc,PermissionsError,"The semaphore exists, but permission to open has been denied.");
         }
         case ( EEXIST ) : {
-            return StandardException(LOC,PermissionsError,"The semaphore already exists, so your request to explicitly create was denied.");
+            return StandardException(loc,PermissionsError,"The semaphore already exists, so your request to explicitly create was denied.");
         }
         case ( ENOENT ) : {
-            return StandardException(LOC,ConfigurationError,"The semaphore requested doesn't already exist (you specifically requested it to just open, not create).");
+            return StandardException(loc,ConfigurationError,"The semaphore requested doesn't already exist (you specifically requested it to just open, not create).");
         }
         case ( ENOMEM ) : {
-            return StandardException(LOC,MemoryError,"Insufficient memory.");
+            return StandardException(loc,MemoryError,"Insufficient memory.");
         }
         case ( EINVAL ) : {
-            return StandardException(LOC,InvalidArgError,"Name was empty (i.e. '/'). Can also be the maximum number of semaphores has already been exceeded.");
+            return StandardException(loc,InvalidArgError,"Name was empty (i.e. '/'). Can also be the maximum number of semaphores has already been exceeded.");
         }
         case ( EMFILE ) : {
-        	return StandardException(LOC,OutOfResourcesError,"This process has already exceeded the number of files/pseudofiles it is permitted to open.");
+        	return StandardException(loc,OutOfResourcesError,"This process has already exceeded the number of files/pseudofiles it is permitted to open.");
 		}
         case ( ENFILE ) : {
-        	return StandardException(LOC,OutOfResourcesError,"This system has already exceeded the number of files/pseudofiles it is permitted to open.");
+        	return StandardException(loc,OutOfResourcesError,"This system has already exceeded the number of files/pseudofiles it is permitted to open.");
 		}
         case ( ENAMETOOLONG ) : {
-        	return StandardException(LOC,InvalidArgError,"The semaphore name was too long.");
+        	return StandardException(loc,InvalidArgError,"The semaphore name was too long.");
 		}
 		default         :
 		{
@@ -244,13 +244,13 @@ ecl::StandardException tryLockSemaphoreException(const char* loc) {
 	int error_result = errno;
     switch ( error_result ) {
         case ( EINTR ) : {
-            return StandardException(LOC,InterruptedError,"Waiting for the semaphore lock was interrupted by a system signal.");
+            return StandardException(loc,InterruptedError,"Waiting for the semaphore lock was interrupted by a system signal.");
         }
         case ( EINVAL ) : {
-            return StandardException(LOC,InvalidArgError,"The semaphore was invalid or the timeout structure specified was invalid.");
+            return StandardException(loc,InvalidArgError,"The semaphore was invalid or the timeout structure specified was invalid.");
         }
         case ( EAGAIN ) : {
-            return StandardException(LOC,BlockingError,"The waiting operation could not be performed without blocking???");
+            return StandardException(loc,BlockingError,"The waiting operation could not be performed without blocking???");
         }
 		default         :
 		{
diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7e14653..9c18b0d 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -115,7 +115,7 @@ ecl::StandardException openSharedSectionException(const char* loc) {
 	int error_result = errno;
 	switch (error_result) {
 		case ( EACCES ) : {
-			throw StandardException(LOC,PermissionsError,"Opening shared memory failed - permission denied.");
+			throw StandardException(loc,PermissionsError,"Opening shared memory failed - permission denied.");
 			break;
 		}
 	//            case ( EEXIST ) : { // If using O_EXCL, need this, otherwise no.
@@ -123,15 +123,15 @@ ecl::StandardException openSharedSectionException(const char* loc) {
 	//                break;
 	//            }
 		case ( EMFILE ) : case ( ENFILE ) : {
-			throw StandardException(LOC,OutOfResourcesError,"Opening shared memory failed - too many file connections already open.");
+			throw StandardException(loc,OutOfResourcesError,"Opening shared memory failed - too many file connections already open.");
 			break;
 		}
 		case ( ENOENT ) : case ( ENAMETOOLONG ) : case ( EINVAL ) : {
-			throw StandardException(LOC,InvalidArgError,"Opening shared memory failed - pathname problem.");
+			throw StandardException(loc,InvalidArgError,"Opening shared memory failed - pathname problem.");
 			break;
 		}
 		case ( ENOSYS ) : {
-			throw StandardException(LOC,NotSupportedError,"Opening shared memory failed - kernel system functions are not available (remake the kernel).");
+			throw StandardException(loc,NotSupportedError,"Opening shared memory failed - kernel system functions are not available (remake the kernel).");
 			break;
 		}
 		default         :
@@ -147,28 +147,28 @@ ecl::StandardException memoryMapException(const char* loc) {
 	int error_result = errno;
 	switch (error_result) {
 		case ( EACCES ) : {
-			return StandardException(LOC,PermissionsError,"Shared mapping failed - permission problems (see man mmap).");
+			return StandardException(loc,PermissionsError,"Shared mapping failed - permission problems (see man mmap).");
 		}
 		case ( EAGAIN ) : {
-			return StandardException(LOC,MemoryError,"Shared mapping failed - file locked or too much memory has been locked.");
+			return StandardException(loc,MemoryError,"Shared mapping failed - file locked or too much memory has been locked.");
 		}
 		case ( EBADF  ) : {
-			return StandardException(LOC,InvalidArgError,"Shared mapping failed - not a valid file descriptor (see man mmap).");
+			return StandardException(loc,InvalidArgError,"Shared mapping failed - not a valid file descriptor (see man mmap).");
 		}
 		case ( EINVAL ) : {
-			return StandardException(LOC,InvalidArgError,"Shared mapping failed - start, length or offset were invalid or MAP_PRIVLOCE and MAP_SHARED were either both present or both obso (see man mmap).");
+			return StandardException(loc,InvalidArgError,"Shared mapping failed - start, length or offset were invalid or MAP_PRIVLOCE and MAP_SHARED were either both present or both obso (see man mmap).");
 		}
 		case ( ENFILE ) : {
-			return StandardException(LOC,OutOfResourcesError,"Shared mapping failed - system limit on the total number of open files has been reached (see man mmap).");
+			return StandardException(loc,OutOfResourcesError,"Shared mapping failed - system limit on the total number of open files has been reached (see man mmap).");
 		}
 		case ( ENODEV ) : {
-			return StandardException(LOC,NotSupportedError,"Shared mapping failed - underlying filesystem of the specified file doesn't support memory mapping (see man mmap).");
+			return StandardException(loc,NotSupportedError,"Shared mapping failed - underlying filesystem of the specified file doesn't support memory mapping (see man mmap).");
 		}
 		case ( ENOMEM ) : {
-			return StandardException(LOC,MemoryError,"Shared mapping failed - no mem available, or max mappings exceeded (see man mmap).");
+			return StandardException(loc,MemoryError,"Shared mapping failed - no mem available, or max mappings exceeded (see man mmap).");
 		}
 		case ( EPERM ) : {
-			return StandardException(LOC,PermissionsError,"Shared mapping failed - EPERM (see man mmap).");
+			return StandardException(loc,PermissionsError,"Shared mapping failed - EPERM (see man mmap).");
 		}
 //		case ( ETXBSY ) : {
 //			return StandardException(LOC,"Shared mapping failed.","ETXBSY (see man mmap).");
-- 
2.43.0


From 00ad9344a3d2d75035f911cae1b838113aa00cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 32/40] fix: missing files, busy ports and reset connections
 are reported as such

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp     | 2 ++
 ecl_devices/src/lib/detail/error_handler.cpp                    | 1 +
 ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp     | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index 42b6fee..e32ff91 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -88,6 +88,7 @@ inline ecl::Error bind_error() {
 inline ecl::Error accept_error() {
   switch( errno ) {
               case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
+              case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
               case ( EBADF )       : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNABORTED ): return ecl::Error(ecl::InterruptedError);
               case ( EINTR )       : return ecl::Error(ecl::InterruptedError);
@@ -115,6 +116,7 @@ inline ecl::Error receive_error() {
               case ( EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
+              case ( ECONNRESET  ) : return ecl::Error(ecl::InterruptedError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
               case ( EINTR       ) : return ecl::Error(ecl::InterruptedError);
               case ( EINVAL      ) : return ecl::Error(ecl::InvalidArgError);
diff --git a/ecl_devices/src/lib/detail/error_handler.cpp b/ecl_devices/src/lib/detail/error_handler.cpp
index 8d0dd3a..756b2b1 100644
--- a/ecl_devices/src/lib/detail/error_handler.cpp
+++ b/ecl_devices/src/lib/detail/error_handler.cpp
@@ -34,6 +34,7 @@ namespace devices {
 ecl::Error open_error() {
 	int error_result = errno;
 	switch (error_result) {
+		case ( ENOENT ) : return ecl::Error(ecl::NotFoundError);
 		case ( EINVAL ) : return ecl::Error(ecl::InvalidArgError);
 		case ( EACCES ) : return ecl::Error(ecl::PermissionsError);
 		case ( EFBIG )  : case (EOVERFLOW)  :
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 18b8ed4..d6d9fa8 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -75,6 +75,7 @@ StandardException bind_exception(const char* loc) {
 StandardException accept_exception(const char* loc) {
     switch( errno ) {
 		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
+		case ( EADDRINUSE )  : return StandardException(loc,BusyError,"Unable to accept client connection. Another socket is already listening on this port.");
 		case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
 		case ( ECONNABORTED ): return StandardException(loc,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
 		case ( EINTR )       : return StandardException(loc,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
@@ -102,6 +103,7 @@ StandardException receive_exception(const char* loc) {
 		case ( EWOULDBLOCK ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(loc,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
+		case ( ECONNRESET  ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Connection reset by peer.");
 		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
 		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Signal interruption.");
 		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
-- 
2.43.0


From 0f9996b15f1e63cd3be8a2fb66c2c6944454fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:26 +0000
Subject: [PATCH 33/40] fix: shared files give their locks and memory back when
 an operation fails

---
 .../include/ecl/devices/shared_file.hpp       |  7 ++-
 ecl_devices/src/lib/shared_file.cpp           | 44 ++++++++++++-------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 6a15fb8..4cedc71 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -175,7 +175,7 @@ public:
 	 *
 	 * @return unsigned int : the number of shared instances.
 	 */
-	unsigned int count() { return shared_instance->count; }
+	unsigned int count() { return shared_instance != NULL ? shared_instance->count : 0; }
 
 	/*********************
 	** OutputDevice Methods
@@ -227,7 +227,10 @@ public:
 	 **/
 	bool flush();
 
-	const Error& error() const { return shared_instance->error_handler; }
+	const Error& error() const {
+		static const Error not_opened(OpenError);
+		return shared_instance != NULL ? shared_instance->error_handler : not_opened;
+	}
 
 private:
 	void release(); // gives up the share of the file
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 7c962e5..9fb065f 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -18,6 +18,7 @@
 
 #include <iostream>
 #include <map>
+#include <memory>
 #include <string>
 #include <ecl/errors/handlers.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -31,6 +32,22 @@
 namespace ecl {
 namespace devices {
 
+/*****************************************************************************
+** Locking
+*****************************************************************************/
+
+namespace {
+// gives the mutex back however the scope is left.
+class ScopedLock {
+public:
+	explicit ScopedLock(ecl::Mutex &m) : mutex(m) { mutex.lock(); }
+	~ScopedLock() { mutex.unlock(); }
+private:
+	ScopedLock(const ScopedLock&);
+	ecl::Mutex &mutex;
+};
+} // namespace
+
 /****************************************************************************
 ** Using
 *****************************************************************************/
@@ -72,30 +89,27 @@ std::map<string,SharedFileCommon*> SharedFileManager::opened_files;
 
 SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name, ecl::WriteMode mode) {
 
-	mutex.lock();
+	ScopedLock lock(mutex);
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
-	SharedFileCommon* shared_instance;
 	if ( iter != opened_files.end() ) {
         /******************************************
         ** File exists - do not open
         *******************************************/
         iter->second->count += 1;
-        shared_instance = iter->second;
+        return iter->second;
     } else {
         /******************************************
         ** File does not exist - open it
         *******************************************/
     	ecl_try {
-    		shared_instance = new SharedFileCommon(name,mode);
-    		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
+    		std::unique_ptr<SharedFileCommon> shared_instance(new SharedFileCommon(name,mode));
+    		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance.get()));
+    		return shared_instance.release();
     	} ecl_catch ( StandardException &e ) {
-    		shared_instance = NULL;
-    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
-    mutex.unlock();
-    return shared_instance;
+    return NULL;
 }
 /**
  * Don't have to worry about this too much, its only called when closing.
@@ -104,11 +118,10 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
  */
 bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 
-	mutex.lock();
+	ScopedLock lock(mutex);
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
-		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
@@ -118,7 +131,6 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
     } else {
         iter->second->count -= 1;
     }
-    mutex.unlock();
     return true;
 }
 
@@ -224,17 +236,19 @@ bool SharedFile::flush() {
 	long n = buffer.size();
 	// whatever is not written now is reported and lost
 	buffer.clear();
-	shared_instance->mutex.lock();
+	if ( shared_instance == NULL ) { // the last attempt to open a file ran out of memory
+		ecl_debug_throw(StandardException(LOC,UsageError,"This file is not open."));
+		return false;
+	}
+	devices::ScopedLock lock(shared_instance->mutex);
 	ecl_debug_try {
 		written = shared_instance->file.write(buffer.c_ptr(), n );
 	} ecl_debug_catch(const StandardException &e) {
 		shared_instance->error_handler = shared_instance->file.error();
-		shared_instance->mutex.unlock();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
-	shared_instance->mutex.unlock();
 	return ( written == n );
 }
 
-- 
2.43.0


From 937e4e809693a41d4b51b1382d35b99d76eedd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 34/40] fix: memory checked arrays construct and align their
 elements, keep their content when memory or a copy fails, and leave no gap
 unwatched

---
 .../array/array_dynamic_mem_check.hpp         | 76 ++++++++++---------
 .../ecl/containers/array/array_mem_check.hpp  | 23 +++++-
 2 files changed, 61 insertions(+), 38 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..88a8f9b 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <cstdio>
+#include <new>
 #include <ecl/config/macros.hpp>
 #include <ecl/utilities/blueprints.hpp>
 #include "../definitions.hpp"
@@ -162,20 +163,13 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param reserve_size : the number of elements to be allocated to the container.
          */
         explicit Array(const unsigned int reserve_size) :
-        		buffer_size(reserve_size),
+        		buffer_size(0),
         		underrun(NULL),
         		buffer(NULL),
         		overrun(NULL)
 			{
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
-        	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
-        	buffer = (Type*) (underrun+bufferUnderrunLength());
-        	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
         	// Leave it uninitialised, just like eigen containers...faster
-//        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
-//        		buffer[i] = Type();
-//        	}
-			initialiseMagicSections();
+        	resize(reserve_size);
         };
         /**
          * @brief Copy constructor.
@@ -186,8 +180,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         Array(const Array<Type,DynamicStorage>& array) : buffer_size(0), underrun(NULL), buffer(NULL), overrun(NULL) {
         	if ( array.size() != 0 ) {
-				resize(array.size()); // not really optimal as we do a fill in resize and then copy here, but its debug version anyway.
-				std::copy(array.begin(),array.end(),begin());
+				Array<Type,DynamicStorage> copy(array.buffer_size); // cleans up if copying an element throws
+				std::copy(array.begin(),array.end(),copy.begin());
+				swap(copy);
         	}
         }
         /**
@@ -217,8 +212,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
             // conveniently convert types correctly
             // (e.g. Array<double> array(4); array = 1,2,3,4; will fail)
             ecl_compile_time_concept_check(BluePrintConcept<T>);
-            blueprint.implementApply(*this);
-            initialiseMagicSections();
+            Array<Type,DynamicStorage> array; // cleans up if copying an element throws
+            blueprint.implementApply(array);
+            swap(array);
         }
         /**
          * @brief Default destructor.
@@ -227,12 +223,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          **/
         ~Array() {
 
-            if ( underrun != NULL ) {
-                free(underrun);
-            }
-            underrun = NULL;
-            buffer = NULL;
-            overrun = NULL;
+            clear();
         }
         /*********************
         ** Assignment
@@ -258,8 +249,8 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-				resize(array.size()); // not really optimal as we do a fill in resize and then copy here, but its debug version anyway.
-				std::copy(array.begin(),array.end(),begin());
+				Array<Type,DynamicStorage> copy(array); // it may be this very array, and copying may throw
+				swap(copy);
         	}
         }
 
@@ -494,19 +485,10 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n )  {
-        	if ( underrun != NULL ) {
-        		free(underrun);
-        	}
-            buffer_size = n;
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
-        	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
-        	buffer = (Type*) (underrun+bufferUnderrunLength());
-        	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
         	// Leave it uninitialised, just like eigen containers...faster
-//        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
-//        		buffer[i] = Type();
-//        	}
-            initialiseMagicSections();
+        	Array<Type,DynamicStorage> array; // if this throws, the array stays as it was
+        	array.allocate(n);
+        	swap(array);
         }
         /**
          * @brief Clear the array, deleting all storage space previously allocated.
@@ -515,7 +497,11 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         void clear() {
         	if ( underrun != NULL ) {
-        		free(underrun);
+        		while ( buffer_size > 0 ) {
+        			--buffer_size;
+        			buffer[buffer_size].~Type();
+        		}
+        		::operator delete(underrun);
         		underrun = NULL;
         		buffer = NULL;
         		overrun = NULL;
@@ -546,12 +532,30 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
     private:
         void initialiseMagicSections();
 
-         static const unsigned int& bufferOverrunLength() {
+        // storage for an array that has none.
+        void allocate(size_t n) {
+        	underrun = static_cast<char*>(::operator new(bufferUnderrunLength()+n*sizeof(Type)+bufferOverrunLength()));
+        	buffer = reinterpret_cast<Type*>(underrun+bufferUnderrunLength());
+        	overrun = underrun+bufferUnderrunLength()+n*sizeof(Type);
+        	for ( buffer_size = 0; buffer_size < n; ++buffer_size ) {
+        		new (static_cast<void*>(buffer+buffer_size)) Type;
+        	}
+        	initialiseMagicSections();
+        }
+        void swap(Array<Type,DynamicStorage>& array) {
+            std::swap(buffer_size,array.buffer_size);
+            std::swap(underrun,array.underrun);
+            std::swap(buffer,array.buffer);
+            std::swap(overrun,array.overrun);
+        }
+
+        static const unsigned int& bufferOverrunLength() {
             static const unsigned int buffer_overrun_length = 4;
             return buffer_overrun_length;
         }
         static const unsigned int& bufferUnderrunLength() {
-            static const unsigned int buffer_underrun_length = 4;
+            // the elements start right behind it, properly aligned
+            static const unsigned int buffer_underrun_length = ((4+alignof(Type)-1)/alignof(Type))*alignof(Type);
             return buffer_underrun_length;
         }
         static const char& magicChar() {
diff --git a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
index d9c53ee..96d143f 100644
--- a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
@@ -157,6 +157,25 @@ class ECL_PUBLIC Array : public blueprints::ArrayFactory<Type,Size> {
             initialiseMagicSections();
         }
 
+        /**
+         * @brief Copies the elements only, damage done around another array isn't damage done to this one.
+         * @param array : the array to copy from.
+         */
+        Array(const Array<Type,Size> &array) : Factory() {
+            std::copy(array.begin(),array.end(),begin());
+            initialiseMagicSections();
+        }
+        /**
+         * @brief Copies the elements only, damage already done around this array stays noticed.
+         * @param array : the array to copy from.
+         */
+        Array<Type,Size>& operator=(const Array<Type,Size> &array) {
+            if ( this != &array ) {
+                std::copy(array.begin(),array.end(),begin());
+            }
+            return *this;
+        }
+
         virtual ~Array() {}; // The user should manually check these in the classes that hold them.
 
         /*********************
@@ -367,14 +386,14 @@ class ECL_PUBLIC Array : public blueprints::ArrayFactory<Type,Size> {
             return buffer_overrun_length;
         }
         static const unsigned int& bufferUnderrunLength() {
-            static const unsigned int buffer_underrun_length = 4;
+            static const unsigned int buffer_underrun_length = sizeof(underrun);
             return buffer_underrun_length;
         }
         static const char& magicChar() {
             static const char magic_char = static_cast<char>(0xCC);
             return magic_char;
         }
-        char underrun[4];
+        alignas(Type) char underrun[((4+alignof(Type)-1)/alignof(Type))*alignof(Type)]; // no gap before the elements
         value_type elements[Size];
         char overrun[4];
 };
-- 
2.43.0


From 1d9e5971e7e4f0cbebe905da099d043cc544ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:06 +0000
Subject: [PATCH 35/40] fix: a shared file's error and count are not
 overwritten by other threads sharing it

---
 .../include/ecl/devices/shared_file.hpp       | 19 +++++++++---------
 ecl_devices/src/lib/shared_file.cpp           | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 4cedc71..e18b454 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -24,6 +24,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
 #include <map>
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -63,7 +64,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : count(0), error_handler(NoError) {};
+    SharedFileCommon() : count(0) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
@@ -79,10 +80,9 @@ public:
     friend class SharedFileManager;
 
 private:
-    unsigned int count;
+    std::atomic<unsigned int> count; // read by any user while others come and go
     ecl::Mutex mutex;
     OFile file;
-	Error error_handler;
 };
 
 class SharedFileManager {
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() : shared_instance(new devices::SharedFileCommon()) {};
+	SharedFile() : shared_instance(new devices::SharedFileCommon()), error_handler(NoError) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -175,7 +175,7 @@ public:
 	 *
 	 * @return unsigned int : the number of shared instances.
 	 */
-	unsigned int count() { return shared_instance != NULL ? shared_instance->count : 0; }
+	unsigned int count() { return shared_instance != NULL ? shared_instance->count.load() : 0; }
 
 	/*********************
 	** OutputDevice Methods
@@ -227,16 +227,17 @@ public:
 	 **/
 	bool flush();
 
-	const Error& error() const {
-		static const Error not_opened(OpenError);
-		return shared_instance != NULL ? shared_instance->error_handler : not_opened;
-	}
+	/**
+	 * @brief The result of the last operation of this instance (not of others sharing the file).
+	 */
+	const Error& error() const { return error_handler; }
 
 private:
 	void release(); // gives up the share of the file
 
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
+	Error error_handler;
 };
 
 /*****************************************************************************
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 9fb065f..953b23b 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -63,15 +63,11 @@ using ecl::Mutex;
 *****************************************************************************/
 
 SharedFileCommon::SharedFileCommon(const std::string &name, ecl::WriteMode mode) :
-	count(1),
-	error_handler(NoError)
+	count(1)
 {
 	ecl_try {
-		if ( !file.open(name,mode) ) {
-			error_handler = file.error();
-		}
+		file.open(name,mode);
 	} ecl_catch( StandardException &e ) {
-		error_handler = file.error();
 		ecl_throw(StandardException(LOC,e));
 	}
 }
@@ -147,7 +143,8 @@ using std::string;
 *****************************************************************************/
 
 SharedFile::SharedFile(const std::string &name, WriteMode mode) :
-	shared_instance(NULL)
+	shared_instance(NULL),
+	error_handler(NoError)
 {
 	ecl_try {
 		open(name,mode);
@@ -191,19 +188,18 @@ bool SharedFile::open(const std::string &name, WriteMode mode) {
 		return false;
 	}
 	release();
+	error_handler = OpenError; // until it succeeded
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
                         shared_instance = new devices::SharedFileCommon();
-                        shared_instance->error_handler = OpenError;
 			return false;
 		} else {
-			shared_instance->error_handler = NoError;
+			error_handler = NoError;
 			return true;
 		}
 	} ecl_catch ( StandardException &e ) {
 	        shared_instance = new devices::SharedFileCommon();
-		shared_instance->error_handler = OpenError;
 		ecl_throw(StandardException(LOC,e));
 	}
 }
@@ -244,11 +240,11 @@ bool SharedFile::flush() {
 	ecl_debug_try {
 		written = shared_instance->file.write(buffer.c_ptr(), n );
 	} ecl_debug_catch(const StandardException &e) {
-		shared_instance->error_handler = shared_instance->file.error();
+		error_handler = shared_instance->file.error();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
 	// fallback for no exceptions
-	shared_instance->error_handler = shared_instance->file.error();
+	error_handler = shared_instance->file.error();
 	return ( written == n );
 }
 
-- 
2.43.0


From bd426cf110e647390f7a909c1fcdbae6834b3e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 36/40] fix: devices, streams and semaphores build with
 ECL_DISABLE_EXCEPTIONS

---
 .../ecl/devices/detail/exception_handler_pos.hpp  |  2 ++
 .../detail/socket_exception_handler_pos.hpp       |  2 ++
 .../src/lib/detail/exception_handler_pos.cpp      |  3 ++-
 .../lib/detail/socket_exception_handler_pos.cpp   |  3 ++-
 ecl_devices/src/lib/serial_pos.cpp                |  4 +++-
 ecl_devices/src/lib/shared_file.cpp               |  4 +++-
 .../include/ecl/exceptions/standard_exception.hpp | 15 ++++++++-------
 ecl_ipc/src/lib/semaphore_pos.cpp                 |  2 +-
 .../include/ecl/streams/socket_streams.hpp        | 10 ++++++----
 9 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/exception_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/exception_handler_pos.hpp
index 500f60c..9c61321 100644
--- a/ecl_devices/include/ecl/devices/detail/exception_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/exception_handler_pos.hpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <ecl/config/ecl.hpp>
+#ifndef ECL_DISABLE_EXCEPTIONS
 
 /*****************************************************************************
 ** Includes
@@ -78,4 +79,5 @@ StandardException read_exception(const char* loc);
 } // namespace devices
 } // namespace ecl
 
+#endif /* ECL_DISABLE_EXCEPTIONS */
 #endif /* ECL_DEVICES_EXCEPTION_HANDLER_POS_HPP_ */
diff --git a/ecl_devices/include/ecl/devices/detail/socket_exception_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_exception_handler_pos.hpp
index 4823849..d2cdf00 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_exception_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_exception_handler_pos.hpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <ecl/config/ecl.hpp>
+#ifndef ECL_DISABLE_EXCEPTIONS
 #ifndef ECL_IS_APPLE
 #ifdef ECL_IS_POSIX
 
@@ -109,4 +110,5 @@ StandardException connection_exception(const char* loc);
 
 #endif /* ECL_IS_POSIX */
 #endif /* !ECL_IS_APPLE */
+#endif /* ECL_DISABLE_EXCEPTIONS */
 #endif /* ECL_DEVICES_SOCKET_EXCEPTION_HANDLER_POS_HPP_ */
diff --git a/ecl_devices/src/lib/detail/exception_handler_pos.cpp b/ecl_devices/src/lib/detail/exception_handler_pos.cpp
index bff008f..24813da 100644
--- a/ecl_devices/src/lib/detail/exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/exception_handler_pos.cpp
@@ -11,6 +11,7 @@
 *****************************************************************************/
 
 #include <ecl/config/ecl.hpp>
+#ifndef ECL_DISABLE_EXCEPTIONS
 
 /*****************************************************************************
 ** Includes
@@ -143,4 +144,4 @@ StandardException close_exception(const char* loc, const std::string &file_name)
 } // namespace devices
 } // namespace ecl
 
-
+#endif /* ECL_DISABLE_EXCEPTIONS */
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index d6d9fa8..764dcc6 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -11,6 +11,7 @@
 *****************************************************************************/
 
 #include <ecl/config/ecl.hpp>
+#ifndef ECL_DISABLE_EXCEPTIONS
 #ifndef ECL_IS_APPLE
 #ifdef ECL_IS_POSIX
 
@@ -211,4 +212,4 @@ StandardException connection_exception(const char* loc) {
 
 #endif  /* ECL_IS_POSIX */
 #endif  /* !ECL_IS_APPLE */
-
+#endif /* ECL_DISABLE_EXCEPTIONS */
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 95bdd94..0e387ce 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -60,7 +60,9 @@ namespace ecl
 using std::string;
 using ecl::InvalidInputError;
 using ecl::OpenError;
-using ecl::StandardException;
+#ifndef ECL_DISABLE_EXCEPTIONS
+  using ecl::StandardException;
+#endif
 
 /*****************************************************************************
  ** Implementation [Serial][C&D]
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 953b23b..4c2a5e5 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -55,7 +55,9 @@ private:
 using std::string;
 using ecl::WriteMode;
 using ecl::CloseError;
-using ecl::StandardException;
+#ifndef ECL_DISABLE_EXCEPTIONS
+  using ecl::StandardException;
+#endif
 using ecl::Mutex;
 
 /*****************************************************************************
diff --git a/ecl_exceptions/include/ecl/exceptions/standard_exception.hpp b/ecl_exceptions/include/ecl/exceptions/standard_exception.hpp
index c67a434..7494022 100644
--- a/ecl_exceptions/include/ecl/exceptions/standard_exception.hpp
+++ b/ecl_exceptions/include/ecl/exceptions/standard_exception.hpp
@@ -16,21 +16,22 @@
 #define ECL_EXCEPTIONS_STANDARD_EXCEPTION_HPP_
 
 /*****************************************************************************
-** Disable check
+** Includes
 *****************************************************************************/
 
 #include <ecl/config/ecl.hpp>
-#ifndef ECL_DISABLE_EXCEPTIONS
+#include <string>
+#include <cstring>
+#include <ecl/errors/handlers.hpp>
+#include <ecl/errors/macros.hpp>
+#include "macros.hpp"
 
 /*****************************************************************************
-** Includes
+** Disable check
 *****************************************************************************/
 
-#include <string>
+#ifndef ECL_DISABLE_EXCEPTIONS
 #include "exception.hpp"
-#include <ecl/errors/handlers.hpp>
-#include <ecl/errors/macros.hpp>
-#include <cstring>
 
 /*****************************************************************************
 ** Namespaces
diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 555ffbc..cef1c65 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -39,7 +39,7 @@ using std::ostringstream;
 
 Semaphore::Semaphore() {
 	// Never use this constructor
-	throw StandardException(LOC, RaiiError);
+	ecl_throw(StandardException(LOC, RaiiError));
 }
 
 Semaphore::Semaphore(const std::string& string_id):
diff --git a/ecl_streams/include/ecl/streams/socket_streams.hpp b/ecl_streams/include/ecl/streams/socket_streams.hpp
index 012e6b0..01ab7d9 100644
--- a/ecl_streams/include/ecl/streams/socket_streams.hpp
+++ b/ecl_streams/include/ecl/streams/socket_streams.hpp
@@ -110,10 +110,12 @@ public:
 	 * @exception StandardException : throws if the connection failed to open.
 	 */
 	SocketServerStream(const unsigned int &port_number) {
-		try {
-			this->device().open(port_number);
-		} catch(StandardException &e) {
-			throw StandardException(LOC,e);
+		ecl_try {
+			if ( !this->device().open(port_number) ) {
+				error = this->device().error();
+			}
+		} ecl_catch(StandardException &e) {
+			ecl_throw(StandardException(LOC,e));
 		}
 	}
 
-- 
2.43.0


From 28627fc8dcab6cb20c7e8739e28fe60d8a1a6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 37/40] fix: without exceptions, shared memory and shared files
 that could not be set up say so

---
 ecl_devices/src/lib/shared_file.cpp           |  3 +++
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 4c2a5e5..b434c1c 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -101,6 +101,9 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
         *******************************************/
     	ecl_try {
     		std::unique_ptr<SharedFileCommon> shared_instance(new SharedFileCommon(name,mode));
+    		if ( !shared_instance->file.open() ) { // not thrown if exceptions are disabled
+    			return NULL;
+    		}
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance.get()));
     		return shared_instance.release();
     	} ecl_catch ( StandardException &e ) {
diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index eac9779..74e028b 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -166,7 +166,8 @@ private:
  *
  * @param string_id : unique string identifier for the shared memory (no slashes)
  *
- * @exception StandardException : throws if the shared memory could not be initialised.
+ * @exception StandardException : throws if the shared memory could not be initialised
+ *            (if exceptions are disabled, data() is NULL instead).
  **/
 template <typename Storage>
 SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
@@ -177,6 +178,7 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
 	int shm_descriptor = open();
     if ( shm_descriptor == -1) {
         ecl_throw( ipc::openSharedSectionException(LOC) );
+        return; // without exceptions, data() stays NULL
     }
     /*********************
      * Mapping
@@ -199,8 +201,10 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
         int error_result = errno;
         close(shm_descriptor);
         if ( shared_memory_manager ) { unlink(); } // not ours otherwise
+        shared_memory_manager = false;
         errno = error_result;
         ecl_throw( ipc::memoryMapException(LOC) );
+        return;
     }
     /*
      * When first created, the shared memory has 0 size. You need to inflate it before
@@ -211,7 +215,9 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
         munmap(shm_address,shared_memory_size);
         close(shm_descriptor);
         if ( shared_memory_manager ) { unlink(); } // not ours otherwise
+        shared_memory_manager = false;
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
+        return;
     }
 
     /*********************
@@ -239,7 +245,9 @@ template <typename Storage>
 SharedMemory<Storage>::~SharedMemory()
 {
     /* Might be worth putting a check on this later (i.e. < 0 is an error). */
-    munmap( (void*) storage,shared_memory_size);
+    if ( storage != NULL ) {
+        munmap( (void*) storage,shared_memory_size);
+    }
 //    munmap(shm_address,shared_memory_size);
 
     if ( shared_memory_manager ) {
-- 
2.43.0


From a114079fcaf66a475e41c395528e1e33fc6d0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:18 +0000
Subject: [PATCH 38/40] fix: a temporary width or alignment of a string format
 ends with its value

---
 .../include/ecl/formatters/strings.hpp        | 28 +++++++++++++------
 ecl_formatters/src/lib/strings.cpp            | 10 +++++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index d50ede8..2221e9f 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),ready_to_format(false) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),tmp_width(w),alignment_(a),tmp_alignment(a),temporary(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -129,11 +129,22 @@ class ecl_formatters_PUBLIC Format<std::string> {
         /******************************************
         ** Parameters
         *******************************************/
-        int width_;
-        Alignment alignment_;
+        int width_, tmp_width;
+        Alignment alignment_, tmp_alignment;
+        bool temporary; // the value came with parameters of its own
         bool ready_to_format;
         std::string s;
 
+        // Ends a formatting, even if the stream throws: temporary parameters are for one value only.
+        struct Finish {
+            Finish(Format<std::string>& f) : formatter(f) {}
+            ~Finish() {
+                formatter.temporary = false;
+                formatter.ready_to_format = false;
+            }
+            Format<std::string>& formatter;
+        };
+
         /******************************************
         ** Padding
         *******************************************/
@@ -174,17 +185,18 @@ template <typename OutputStream>
 void Format<std::string>::format(OutputStream &ostream) const
 {
     int size = s.size();
+    int width = temporary ? tmp_width : width_;
 
-    prePad(width_ - (size),ostream); // previously had (size+2) here...why?
+    prePad(width - (size),ostream); // previously had (size+2) here...why?
     ostream << s;
-    postPad(width_ - (size),ostream);
+    postPad(width - (size),ostream);
 }
 
 template <typename OutputStream>
 void Format<std::string>::prePad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary ? tmp_alignment : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { break; }
@@ -197,7 +209,7 @@ template <typename OutputStream>
 void Format<std::string>::postPad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary ? tmp_alignment : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { pad(n,ostream); break; }
@@ -231,9 +243,9 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
             "in the same stream sequence, so this is not permitted here.") );
 
     if ( ready ) {
+        Format<std::string>::Finish finish(formatter);
         FormattedText text;
         formatter.format(text);
-        formatter.ready_to_format = false;
         ostream << text.text;
     }
 
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..02f0624 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -38,6 +38,7 @@ Format<std::string>& Format<std::string>::operator () (int w, Alignment a)
 Format<std::string>& Format<std::string>::operator()(const std::string &input_string)
 {
     s =  input_string;
+    temporary = false;
     ready_to_format = true;
     return *this;
 }
@@ -47,16 +48,19 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
-    width(w);
     s = input_string;
+    tmp_width = w;
+    tmp_alignment = alignment_;
+    temporary = true;
     ready_to_format = true;
     return *this;
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
-    width(w);
-    align(a);
     s = input_string;
+    tmp_width = w;
+    tmp_alignment = a;
+    temporary = true;
     ready_to_format = true;
     return *this;
 }
-- 
2.43.0


From 2832a54f74c7ca967266979788101b28f0296449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:18 +0000
Subject: [PATCH 39/40] fix: parameters of a value that is never printed leave
 no trace in a format, nor do those of a copied one

---
 .../ecl/containers/common/formatters.hpp      | 35 ++++-----
 .../include/ecl/formatters/floats.hpp         | 77 +++++++++++--------
 .../include/ecl/formatters/number.hpp         | 61 +++++++++------
 3 files changed, 101 insertions(+), 72 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 0a4fa9e..e8001be 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -78,10 +78,11 @@ class ECL_LOCAL FloatContainerFormatter {
          * @param w : width [default : no width constraint]
          **/
         FloatContainerFormatter(const unsigned int p = 2, const int w=-1) :
-            old_precision(-1),
+            tmp_precision(p),
+            prm_precision(p),
             tmp_width(-1),
             prm_width(w),
-            width_ptr(&prm_width),
+            temporary(false),
             format(w,p,ecl::RightAlign,ecl::Fixed),
             container(NULL),
             ready_to_format(false)
@@ -97,7 +98,7 @@ class ECL_LOCAL FloatContainerFormatter {
          * @param p : the number of decimal places of precision.
          * @return FloatContainerFormatter& : this formatter readied for use with a stream.
          **/
-        FloatContainerFormatter& precision(const unsigned int p) { format.precision(p); return *this; } // Permanent
+        FloatContainerFormatter& precision(const unsigned int p) { prm_precision = p; return *this; } // Permanent
         /**
          * @brief Sets the width format parameter.
          *
@@ -115,7 +116,7 @@ class ECL_LOCAL FloatContainerFormatter {
          * Returns the current precision setting.
          * @return int : the number of decimal places of precision.
          */
-        unsigned int precision() const { return format.precision(); }
+        unsigned int precision() const { return temporary ? tmp_precision : prm_precision; }
         /**
          * Permanently sets the stream's precision format. This is simply a convenient
          * version of the precision(p) method.
@@ -123,7 +124,7 @@ class ECL_LOCAL FloatContainerFormatter {
          * @param w : the width to use for the inserted float.
          * @return FloatContainerFormatter& : this formatter readied for use with a stream.
          */
-        FloatContainerFormatter& operator()(const unsigned int p, const int w) { format.precision(p); prm_width = w; return *this; } // Permanent
+        FloatContainerFormatter& operator()(const unsigned int p, const int w) { prm_precision = p; prm_width = w; return *this; } // Permanent
         /**
          * Convenient stream formatter. This function directly readies the formatter
          * with the specified container and the stored (permanent) settings.
@@ -134,7 +135,7 @@ class ECL_LOCAL FloatContainerFormatter {
          * @param c : the input container to be formatted.
          * @return FormatFloat& : this formatter readied for use with a stream.
          **/
-        FloatContainerFormatter& operator()(const Container &c) { container = &c; ready_to_format = true; return *this; }
+        FloatContainerFormatter& operator()(const Container &c) { container = &c; temporary = false; ready_to_format = true; return *this; }
         /**
          * Convenient stream formatter. This function directly readies the formatter
          * with the specified container and configures a temporary setting for
@@ -151,10 +152,9 @@ class ECL_LOCAL FloatContainerFormatter {
         FloatContainerFormatter& operator()(Container &c, const unsigned int p, const int w) {
             container = &c;
             ready_to_format = true;
-            old_precision = format.precision();
-            format.precision(p);
+            tmp_precision = p;
             tmp_width = w;
-            width_ptr = &tmp_width;
+            temporary = true;
             return *this;
         } //temporary
 
@@ -173,9 +173,9 @@ class ECL_LOCAL FloatContainerFormatter {
     private:
         long digits(value_type min_coeff, value_type max_coeff);
 
-        int old_precision;
+        unsigned int tmp_precision, prm_precision;
         int tmp_width, prm_width;
-        int* width_ptr;
+        bool temporary; // the container came with parameters of its own
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
@@ -184,11 +184,7 @@ class ECL_LOCAL FloatContainerFormatter {
         struct Finish {
             Finish(FloatContainerFormatter& f) : formatter(f) {}
             ~Finish() {
-                if ( formatter.old_precision != -1 ) {
-                    formatter.format.precision(formatter.old_precision);
-                    formatter.old_precision = -1;
-                }
-                formatter.width_ptr = &(formatter.prm_width);
+                formatter.temporary = false;
                 formatter.ready_to_format = false;
             }
             FloatContainerFormatter& formatter;
@@ -236,7 +232,10 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
 
     typename FloatContainerFormatter< Container_ >::Finish finish(formatter);
 
-    if ( ( *(formatter.width_ptr) == -1 ) && ( formatter.container->size() > 0 ) ) {
+    const int width = formatter.temporary ? formatter.tmp_width : formatter.prm_width;
+    formatter.format.precision(formatter.precision());
+
+    if ( ( width == -1 ) && ( formatter.container->size() > 0 ) ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -256,7 +255,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         **********************/
         formatter.format.width(formatter.digits(min_coeff,max_coeff));
     } else {
-        formatter.format.width(*(formatter.width_ptr));
+        formatter.format.width(width);
     }
 
     /*********************
diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 7007e3c..6c4287c 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -81,6 +81,23 @@ public:
 		base_(&prm_base),
 		ready_to_format(false) {}
 
+	FormatFloat(const FormatFloat<Number>& f) { *this = f; }
+
+	FormatFloat<Number>& operator=(const FormatFloat<Number>& f) {
+		prm_width = f.prm_width;
+		prm_precision = f.prm_precision;
+		prm_alignment = f.prm_alignment;
+		prm_base = f.prm_base;
+		useTemporary(f.width_ == &f.tmp_width);
+		*width_ = *f.width_;
+		*precision_ = *f.precision_;
+		*alignment_ = *f.alignment_;
+		*base_ = *f.base_;
+		ready_to_format = f.ready_to_format;
+		if ( ready_to_format ) { value_ = f.value_; }
+		return *this;
+	}
+
 	virtual ~FormatFloat() {}
 
 	/******************************************
@@ -94,7 +111,7 @@ public:
 	 * @param p : the number of decimal places of precision.
 	 * @return FormatFloat& : this formatter readied for use with a stream.
 	 **/
-	FormatFloat<Number>& precision(const unsigned int p) { *precision_ = p; return *this; }
+	FormatFloat<Number>& precision(const unsigned int p) { prm_precision = p; return *this; }
 	/**
 	 * @brief Sets the width format parameter.
 	 *
@@ -222,14 +239,19 @@ protected:
 	bool ready_to_format;
 	Number value_;
 
+	// Chooses between the parameters of a single value and the permanent ones (the pointers are for this object only).
+	void useTemporary(bool temporary) {
+		width_ = temporary ? &tmp_width : &prm_width;
+		precision_ = temporary ? &tmp_precision : &prm_precision;
+		alignment_ = temporary ? &tmp_alignment : &prm_alignment;
+		base_ = temporary ? &tmp_base : &prm_base;
+	}
+
 	// Ends a formatting, even if the stream throws: temporary parameters are for one value only.
 	struct Finish {
 		Finish(FormatFloat<Number>& f) : formatter(f) {}
 		~Finish() {
-			formatter.width_ = &(formatter.prm_width);
-			formatter.precision_ = &(formatter.prm_precision);
-			formatter.alignment_ = &(formatter.prm_alignment);
-			formatter.base_ = &(formatter.prm_base);
+			formatter.useTemporary(false);
 			formatter.ready_to_format = false;
 		}
 		FormatFloat<Number>& formatter;
@@ -260,7 +282,7 @@ protected:
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::base(const ecl::FloatBase b)
 {
-    *base_ = b;
+    prm_base = b;
     return *this;
 }
 /**
@@ -270,10 +292,10 @@ FormatFloat<Number>& FormatFloat<Number>::base(const ecl::FloatBase b)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::width(const int w)
 {
-    *width_ = w;
-    if ( ( *width_ > 0 ) && ( *alignment_ == NoAlign ) )
+    prm_width = w;
+    if ( ( prm_width > 0 ) && ( prm_alignment == NoAlign ) )
     {
-        *alignment_ = RightAlign;
+        prm_alignment = RightAlign;
     }
     return *this;
 }
@@ -286,10 +308,10 @@ FormatFloat<Number>& FormatFloat<Number>::width(const int w)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::align(const ecl::Alignment a)
 {
-    *alignment_ = a;
-    if ( *alignment_ == NoAlign )
+    prm_alignment = a;
+    if ( prm_alignment == NoAlign )
     {
-        *width_ = 0;
+        prm_width = 0;
     }
     return *this;
 }
@@ -322,6 +344,7 @@ FormatFloat<Number>& FormatFloat<Number>::operator () (const unsigned int p, con
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator()(const Number n)
 {
+    useTemporary(false);
     value_ = n;
     ready_to_format = true;
     return *this;
@@ -332,16 +355,11 @@ FormatFloat<Number>& FormatFloat<Number>::operator()(const Number n)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
-    width_ = &tmp_width;
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-    width(w);
-
-    precision_ = &tmp_precision;
-    precision(p);
-
-    base_ = &tmp_base;
-    base(prm_base);
+    useTemporary(true);
+    tmp_width = w;
+    tmp_alignment = ( ( w > 0 ) && ( prm_alignment == NoAlign ) ) ? RightAlign : prm_alignment;
+    tmp_precision = p;
+    tmp_base = prm_base;
 
     value_ = n;
     ready_to_format = true;
@@ -351,16 +369,11 @@ FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned i
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
-    width_ = &tmp_width;
-    alignment_ = &tmp_alignment;
-    width(w);
-    align(a);
-
-    precision_ = &tmp_precision;
-    precision(p);
-
-    base_ = &tmp_base;
-    base(b);
+    useTemporary(true);
+    tmp_width = ( a == NoAlign ) ? 0 : w;
+    tmp_alignment = a;
+    tmp_precision = p;
+    tmp_base = b;
 
     value_ = n;
     ready_to_format = true;
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d4218bd..5cd97a1 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -67,6 +67,21 @@ class FormatNumber {
          **/
         FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
 
+        FormatNumber(const FormatNumber<Number>& f) { *this = f; }
+
+        FormatNumber<Number>& operator=(const FormatNumber<Number>& f) {
+            prm_width = f.prm_width;
+            prm_alignment = f.prm_alignment;
+            prm_base = f.prm_base;
+            useTemporary(f.width_ == &f.tmp_width);
+            *width_ = *f.width_;
+            *alignment_ = *f.alignment_;
+            *base_ = *f.base_;
+            ready_to_format = f.ready_to_format;
+            if ( ready_to_format ) { value_ = f.value_; }
+            return *this;
+        }
+
         virtual ~FormatNumber() {}
 
         /******************************************
@@ -163,13 +178,18 @@ class FormatNumber {
         bool ready_to_format;
         Number value_;
 
+        // Chooses between the parameters of a single value and the permanent ones (the pointers are for this object only).
+        void useTemporary(bool temporary) {
+            width_ = temporary ? &tmp_width : &prm_width;
+            alignment_ = temporary ? &tmp_alignment : &prm_alignment;
+            base_ = temporary ? &tmp_base : &prm_base;
+        }
+
         // Ends a formatting, even if the stream throws: temporary parameters are for one value only.
         struct Finish {
             Finish(FormatNumber<Number>& f) : formatter(f) {}
             ~Finish() {
-                formatter.width_ = &(formatter.prm_width);
-                formatter.alignment_ = &(formatter.prm_alignment);
-                formatter.base_ = &(formatter.prm_base);
+                formatter.useTemporary(false);
                 formatter.ready_to_format = false;
             }
             FormatNumber<Number>& formatter;
@@ -197,16 +217,16 @@ class FormatNumber {
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::base(ecl::IntegralBase b)
 {
-    *base_ = b;
+    prm_base = b;
     return *this;
 }
 
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::width(int w)
 {
-    *width_ = w;
-    if ( ( *width_ > 0 ) && ( *alignment_ == NoAlign ) ) {
-        *alignment_ = RightAlign;
+    prm_width = w;
+    if ( ( prm_width > 0 ) && ( prm_alignment == NoAlign ) ) {
+        prm_alignment = RightAlign;
     }
     return *this;
 }
@@ -214,10 +234,10 @@ FormatNumber<Number>& FormatNumber<Number>::width(int w)
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::align(ecl::Alignment a)
 {
-    *alignment_ = a;
-    if ( *alignment_ == NoAlign )
+    prm_alignment = a;
+    if ( prm_alignment == NoAlign )
     {
-        *width_ = 0;
+        prm_width = 0;
     }
     return *this;
 }
@@ -325,6 +345,7 @@ void FormatNumber<Number>::pad(int n, OutputStream &ostream) const
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator()(Number n)
 {
+    useTemporary(false);
     value_ = n;
     ready_to_format = true;
     return *this;
@@ -340,12 +361,10 @@ FormatNumber<Number>& FormatNumber<Number>::operator()(Number n)
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::IntegralBase b)
 {
-    width_ = &tmp_width;
-    alignment_ = &tmp_alignment;
-    base_ = &tmp_base;
-    base(b);
-    align(prm_alignment);
-    width(w);
+    useTemporary(true);
+    tmp_base = b;
+    tmp_width = w;
+    tmp_alignment = ( ( w > 0 ) && ( prm_alignment == NoAlign ) ) ? RightAlign : prm_alignment;
     value_ = n;
     ready_to_format = true;
     return *this;
@@ -356,12 +375,10 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
 template <typename Number>
 FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::Alignment a, ecl::IntegralBase b)
 {
-    width_ = &tmp_width;
-    alignment_ = &tmp_alignment;
-    base_ = &tmp_base;
-    base(b);
-    width(w);
-    align(a);
+    useTemporary(true);
+    tmp_base = b;
+    tmp_width = ( a == NoAlign ) ? 0 : w;
+    tmp_alignment = a;
     value_ = n;
     ready_to_format = true;
     return *this;
-- 
2.43.0


From 185fbc5a70b804108b05006ef1d19655ec9baacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:18 +0000
Subject: [PATCH 40/40] fix: formatters of containers print nothing as long as
 they have no container

---
 ecl_containers/include/ecl/containers/array/formatters.hpp       | 1 +
 ecl_containers/include/ecl/containers/common/formatters.hpp      | 1 +
 .../include/ecl/containers/push_and_pop/formatters.hpp           | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/formatters.hpp b/ecl_containers/include/ecl/containers/array/formatters.hpp
index ee12c52..05601bd 100644
--- a/ecl_containers/include/ecl/containers/array/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/array/formatters.hpp
@@ -199,6 +199,7 @@ OutputStream& operator <<(OutputStream& ostream, const ByteArrayFormatter<CharTy
           "formatter more than once in a single streaming operation. "
           "C++ produces unspecified results when functors are used multiply "
           "in the same stream sequence, so this is not permitted here.") );
+  if ( !formatter.ready_to_format ) { return ostream; }
 
   ecl::Format<CharType> format(-1, ecl::NoAlign, ecl::Hex);
   typename ecl::Array<CharType, M>::const_iterator iter;
diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index e8001be..f3e5174 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -229,6 +229,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "formatter more than once in a single streaming operation. "
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
+    if ( !formatter.ready_to_format ) { return ostream; }
 
     typename FloatContainerFormatter< Container_ >::Finish finish(formatter);
 
diff --git a/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp b/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
index 0796050..4dd5635 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
@@ -161,6 +161,7 @@ OutputStream& operator <<(OutputStream& ostream, const BytePushAndPopFormatter<C
           "formatter more than once in a single streaming operation. "
           "C++ produces unspecified results when functors are used multiply "
           "in the same stream sequence, so this is not permitted here.") );
+  if ( !formatter.ready_to_format ) { return ostream; }
 
   ecl::Format<CharType> format(-1, ecl::NoAlign, ecl::Hex);
   ostream  << "[ ";
-- 
2.43.0

