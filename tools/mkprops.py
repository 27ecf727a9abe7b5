#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; run after editing).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
p("C01","Mutexes exclude, and only the owner can release them",
 "For every mutex type (normal, recursive, error-checking; plain or robust; dynamically or statically initialised) at most one thread holds the mutex at any time under every interleaving of lock, trylock, timedlock and unlock. A recursive mutex is released only after as many unlocks as locks, relocking an error-checking mutex by its owner gives EDEADLK, and trylock gives EBUSY exactly when the mutex cannot be taken. Unlocking a mutex that the caller does not hold (error-checking, recursive, robust) or that nobody holds gives EPERM and changes nothing.",
 ["schedules","inputs","histories"],"all interleavings of up to 3 threads mixing lock/trylock/timedlock/unlock, all mutex types, all recursion patterns within the bound",
 "Tests run one or two schedules with Sleep-ordered threads; a wrong exchange, a lost owner or a mis-ordered store shows only in particular interleavings.",
 ["pthread_mutex_lock.c","pthread_mutex_trylock.c","pthread_mutex_timedlock.c","pthread_mutex_unlock.c","pthread_mutex_init.c"],
 [("interlocked lock word with contended marker","pthread_mutex_lock.c"),("owner and recursion count","pthread_mutex_unlock.c")],
 [("lock_idx","0 free, 1 held, -1 held and contended","implement.h"),("ownerThread/recursive_count","holder and nesting","implement.h")],["pthread_mutex_* return values","critical-section occupancy"])
p("C02","Waiting for a mutex never loses a wakeup, and timed waits tell the truth",
 "Whenever a mutex is free and threads are blocked in lock or an unexpired timedlock on it, at least one of them goes on to acquire it: no schedule of lock, trylock, timedlock and unlock leaves waiters asleep on a free mutex. A timed lock returns 0 exactly when the caller then holds the mutex and ETIMEDOUT exactly when it does not, and a waiter that times out neither consumes a wakeup another waiter needs nor disturbs the holder.",
 ["schedules"],"all interleavings (within the context bound) of up to 3 threads including expiry of the timeout at any moment",
 "Lost wakeups need a release to fall between the marking of contention and the wait, or a timeout to race with a release; the tests' sleeps avoid those windows.",
 ["pthread_mutex_lock.c","pthread_mutex_timedlock.c","pthread_mutex_unlock.c"],
 [("exchange(-1) before every wait, SetEvent on release of a contended lock","pthread_mutex_lock.c, pthread_mutex_unlock.c"),("event wait with timeout","pthread_mutex_timedlock.c")],[],["blocked threads when no thread can move"])
p("C03","A robust mutex whose owner dies is handed on, recoverable once",
 "When a thread terminates holding a robust mutex, exactly one subsequent (or already waiting) locker obtains it with EOWNERDEAD and owns it. If that owner calls pthread_mutex_consistent and unlocks, the mutex works normally again; if it unlocks without doing so, every waiting and later locker gets ENOTRECOVERABLE and nobody blocks on it. Only the inconsistent robust mutex's holder state can be made consistent (EINVAL otherwise), and a mutex released before the thread's death is unaffected.",
 ["schedules","histories","crash_points"],"death of the owner at any point while holding, with up to two other threads locking by lock, trylock or timedlock; normal, recursive and error-checking robust types",
 "The robust tests use one locker after one dead owner; waiters already blocked, several held mutexes, timed lockers and the unrecoverable path under contention are not reached.",
 ["pthread_mutex_lock.c","pthread_mutex_consistent.c","pthread_mutex_unlock.c","pthread_mutex_timedlock.c","pthread_mutex_trylock.c","ptw32_threadDestroy.c","pthread_win32_attach_detach_np.c"],
 [("per-thread list of held robust mutexes walked at thread exit","pthread_win32_attach_detach_np.c"),("inherit by compare-exchange","pthread_mutex_consistent.c")],
 [("robustNode.stateInconsistent","consistent / inconsistent / not recoverable","implement.h")],["return codes of lock/trylock/timedlock/consistent/unlock"])
p("C04","Semaphores conserve their count",
 "At every moment the number of completed waits on a semaphore (wait, trywait, timedwait) is at most its initial value plus the units posted (post, post_multiple), and no thread stays blocked while a unit is available: under every interleaving, once activity stops, either nobody waits or the value is not positive. trywait takes a unit or returns EAGAIN without changing anything, getvalue reports the units available, and a post that would exceed the maximum fails with ERANGE and adds nothing.",
 ["schedules","inputs"],"all interleavings of up to 4 threads of wait/trywait/timedwait/post/post_multiple; all initial values and counts for the arithmetic",
 "Tests post and wait in sleep-ordered sequence with small counts; overlap of multi-post with waiters, boundary counts and trywait races are not enumerated.",
 ["sem_init.c","sem_wait.c","sem_trywait.c","sem_timedwait.c","sem_post.c","sem_post_multiple.c","sem_getvalue.c","ptw32_semwait.c"],
 [("value under a lock, negative when threads wait; kernel semaphore released per waiter","sem_post.c, sem_post_multiple.c")],[("value","count, minus number of waiters when negative","implement.h")],["successful waits vs posts","sem_getvalue"])
p("C05","Giving up a semaphore wait leaves the semaphore exact",
 "A thread whose sem_timedwait expires, or whose sem_wait/sem_timedwait is cancelled, either consumed a unit (and reports success) or consumed none; in every race with post, post_multiple and other waiters, no unit is lost or duplicated and no other waiter misses its wakeup. Afterwards getvalue, trywait and destroy behave as if the abandoned wait had never happened.",
 ["schedules","fault_sequences"],"expiry or cancellation at any moment relative to posts and other waiters, up to 3 threads",
 "The window between the wait ending and the count being corrected is a few instructions wide; tests cancel or time out only quiescent semaphores.",
 ["sem_wait.c","sem_timedwait.c","sem_post.c","sem_post_multiple.c","w32_CancelableWait.c"],
 [("cleanup handler re-reads value and drains the kernel object","sem_wait.c, sem_timedwait.c")],[],["sem_getvalue and trywait after quiescence"])
p("C06","Condition signals and broadcasts are never lost",
 "A signal sent while threads are blocked on a condition variable releases at least one of them, a broadcast releases all threads blocked at that time, and threads that start waiting later do not take the wakeup of one that was already blocked. This holds under every interleaving of wait, timedwait, signal and broadcast, with or without the mutex held by the signaller and however the waiters' timeouts race.",
 ["schedules"],"all interleavings within the context bound of up to 2-3 waiters and 1-2 signallers, timeouts firing at any moment",
 "The gate/queue counters go wrong only when signals, timeouts and new waiters interleave at particular points; the tests order them with sleeps.",
 ["pthread_cond_wait.c","pthread_cond_signal.c","pthread_cond_init.c"],
 [("blocked/gone/to-unblock counters with gate and queue semaphores","pthread_cond_wait.c, pthread_cond_signal.c")],[("nWaitersBlocked/nWaitersGone/nWaitersToUnblock","waiter accounting","implement.h")],["waiters still blocked at quiescence"])
p("C07","A condition wait always returns holding its mutex",
 "However a condition wait ends - signalled, timed out or cancelled - the caller holds the mutex when it returns or when its cleanup handlers run, the mutex is free to others while it waits, and the wait releases it atomically with becoming a waiter. A timed-out or cancelled waiter leaves the condition variable exact: later signals and broadcasts still reach the remaining waiters, and destroy fails with EBUSY while threads wait and succeeds once they have left.",
 ["schedules","fault_sequences"],"cancellation or expiry at any moment relative to signal, broadcast, destroy and other waiters",
 "Tests cancel or time out waiters only when nothing else is happening.",
 ["pthread_cond_wait.c","pthread_cond_destroy.c","pthread_cond_signal.c"],
 [("cleanup routine run on every exit path re-locks the mutex","pthread_cond_wait.c"),("try-destroy protocol","pthread_cond_destroy.c")],[],["mutex ownership after return / in handlers"])
p("C08","A barrier releases exactly full groups, with one serial thread each",
 "No thread passes a barrier of height N until N threads have arrived in its generation, and once N have arrived all of them pass; exactly one thread of each generation gets PTHREAD_BARRIER_SERIAL_THREAD and the others 0. This holds for every interleaving and across immediate reuse of the barrier by the same or other threads; destroy reports EBUSY while threads wait.",
 ["schedules","histories"],"all interleavings of up to 3 threads over up to 2-3 generations, heights 1 to 3",
 "Reuse races (a fast thread re-entering while slow ones leave) depend on schedules the tests do not control.",
 ["pthread_barrier_wait.c","pthread_barrier_init.c","pthread_barrier_destroy.c"],
 [("arrival counter, release semaphore and lock node transfer","pthread_barrier_wait.c")],[],["arrivals vs departures, serial return values"])
p("C09","Read-write locks exclude writers from everyone and let readers share",
 "At any time a read-write lock is held by one writer and nobody else, or by any number of readers, or is free, under every interleaving of rdlock, wrlock, tryrdlock, trywrlock, their timed forms and unlock. The try forms fail with EBUSY (changing nothing) when the lock cannot be taken at once - and only then or while another thread's call on the same lock is in progress - and readers do not exclude one another.",
 ["schedules"],"all interleavings of up to 3 threads of all lock forms",
 "Tests check a handful of Sleep-ordered sequences.",
 ["pthread_rwlock_rdlock.c","pthread_rwlock_wrlock.c","pthread_rwlock_tryrdlock.c","pthread_rwlock_trywrlock.c","pthread_rwlock_timedrdlock.c","pthread_rwlock_timedwrlock.c","pthread_rwlock_unlock.c"],
 [("exclusive and completed-shared mutex pair with counters","pthread_rwlock_wrlock.c, pthread_rwlock_unlock.c")],[("nSharedAccessCount/nCompletedSharedAccessCount/nExclusiveAccessCount","readers in/out, writer flag","implement.h")],["occupancy of read and write sections"])
p("C10","Read-write lock waiters are never stranded",
 "When the current holders of a read-write lock release it, some blocked thread acquires it: no schedule of lock, timed lock, cancellation and unlock leaves threads blocked on a free lock. A reader or writer that times out or is cancelled while waiting does not hold the lock, leaves no trace of its attempt, and the lock stays fully usable; destroy succeeds on a free lock and reports EBUSY on a held one.",
 ["schedules","fault_sequences"],"all interleavings of up to 3 threads, with expiry and cancellation at any moment",
 "Cancellation and timeout of a writer waiting for readers to drain is exercised only in quiet conditions.",
 ["pthread_rwlock_wrlock.c","pthread_rwlock_timedwrlock.c","pthread_rwlock_timedrdlock.c","ptw32_rwlock_cancelwrwait.c","pthread_rwlock_unlock.c","pthread_rwlock_destroy.c"],
 [("counter repair in the cancelled/timed-out writer","ptw32_rwlock_cancelwrwait.c")],[],["blocked threads at quiescence; lock state after timeout/cancel"])
p("C11","Spin locks exclude",
 "At most one thread holds a spin lock at any time on single- and multi-processor configurations, under every interleaving of lock, trylock and unlock; a free lock can always be taken and trylock gives EBUSY exactly when it is held. Destroying a held spin lock gives EBUSY and leaves it working, using a destroyed one gives EINVAL, unlocking a never-used statically initialised one gives EPERM, and unlocking a free one leaves it free.",
 ["schedules","configurations"],"all interleavings of up to 3 threads; one or several processors; process-private locks; static and dynamic initialisation",
 "Tests run on one machine configuration with little contention.",
 ["pthread_spin_init.c","pthread_spin_lock.c","pthread_spin_trylock.c","pthread_spin_unlock.c","pthread_spin_destroy.c","ptw32_spinlock_check_need_init.c"],
 [("interlocked state word, mutex fallback on a uniprocessor","pthread_spin_init.c, pthread_spin_lock.c")],[],["occupancy and return codes"])
p("C12","pthread_once runs the routine exactly once, completed before anyone returns",
 "For every interleaving of threads calling pthread_once on one control, the routine completes exactly once and no call returns before it has completed. If the thread running it is cancelled or exits inside the routine, the control behaves as if never called and another caller runs it, and no waiting caller is stranded.",
 ["schedules","fault_sequences"],"up to 3 concurrent callers, cancellation at a cancellation point in the routine",
 "The race is between the fast-path check and the locked check; tests rarely produce it.",
 ["pthread_once.c"],[("double-checked flag under a queue lock with a cleanup handler","pthread_once.c")],[],["runs of the routine; returns before completion"])
p("C13","Statically initialised objects come to life exactly once",
 "When several threads make the first use of a statically initialised mutex (any kind), condition variable, read-write lock or spin lock at the same time, they all end up using one and the same object and no resource is leaked or lost. An object that was never used can be destroyed, and a destroy racing with first use either destroys the object or reports it busy, never corrupting it.",
 ["schedules"],"all interleavings of 2-3 threads doing first use by different operations, or first use against destroy",
 "First use happens once per object; tests do it from one thread.",
 ["ptw32_mutex_check_need_init.c","ptw32_cond_check_need_init.c","ptw32_rwlock_check_need_init.c","ptw32_spinlock_check_need_init.c"],
 [("global queue lock and re-check","ptw32_*_check_need_init.c")],[],["exclusion across first users; allocations"])
p("C14","The internal queue lock hands over safely",
 "The lock that serialises library-internal state grants one thread at a time, in arrival order, and every waiter is eventually granted it whatever the interleaving of acquire, try-acquire, hand-over to another waiter record and release; try-acquire never blocks and succeeds only on a free lock. No waiter record or kernel handle is touched after its owner has been allowed to discard it, and none leaks.",
 ["schedules"],"all interleavings of up to 3 threads acquiring, trying and transferring",
 "Contention on these locks lasts a few instructions; tests practically never hit the slow path.",
 ["ptw32_MCS_lock.c"],[("tail exchange, per-node ready/next flags with events","ptw32_MCS_lock.c")],[],["occupancy; memory and handle validity"])
p("C15","Thread-specific data is private to its thread and destroyed correctly",
 "A thread reads back from a key exactly the value it last stored, NULL initially, never another thread's value or one stored under an earlier key. At thread exit each key with a destructor and a non-NULL value has its destructor called with that value after the value is reset to NULL, repeatedly while destructors store new values but at most PTHREAD_DESTRUCTOR_ITERATIONS times, and never for NULL values or deleted keys.",
 ["histories","inputs"],"all sequences (within the bound) of create/set/get/delete on up to 3 keys and all destructor behaviours that re-store values, for up to 2 threads",
 "The combination of which keys hold values, what destructors store and which keys are deleted is sampled at a few points only.",
 ["pthread_setspecific.c","pthread_getspecific.c","pthread_key_create.c","pthread_key_delete.c","ptw32_callUserDestroyRoutines.c","ptw32_tkAssocCreate.c","ptw32_tkAssocDestroy.c"],
 [("association lists by thread and by key","ptw32_tkAssocCreate.c"),("bounded destructor passes","ptw32_callUserDestroyRoutines.c")],[],["destructor calls and arguments"])
p("C16","Deleting a key while threads set it or exit is safe",
 "pthread_key_delete racing with setspecific in other threads or with the exit of threads holding values never touches freed memory, never leaks or double-frees the bookkeeping between key and thread, never deadlocks, and never runs the destructor for a thread that begins to exit after delete has returned. (Threads that use the very key being deleted are outside: POSIX leaves that undefined.)",
 ["schedules"],"all interleavings of one deleter with a thread exiting with a value for the key, or creating, setting and deleting other keys",
 "The race window is inside list manipulation; no test deletes keys concurrently with exits.",
 ["pthread_key_delete.c","ptw32_callUserDestroyRoutines.c","ptw32_tkAssocDestroy.c","pthread_setspecific.c"],
 [("key lock and thread lock ordering with restart","pthread_key_delete.c, ptw32_callUserDestroyRoutines.c")],[],["memory validity, destructor calls after delete"])
p("C17","Cleanup handlers run in reverse order, exactly when they should",
 "On cancellation or pthread_exit every cleanup handler pushed and not popped runs exactly once, most recent first, with its own argument, before thread-specific destructors; pop with a nonzero argument runs just the top handler and with zero runs none. Handlers of code that completed normally never run later.",
 ["histories","fault_sequences"],"all push/pop/exit/cancel sequences up to nesting depth 3, thread terminating at any point of it",
 "Tests use one nesting shape per termination cause.",
 ["cleanup.c","ptw32_throw.c","pthread.h","pthread_exit.c"],[("linked list of handlers in TSD","cleanup.c")],[],["order and arguments of handler calls"])
p("C18","Cancellation obeys state and type",
 "A cancel request is never acted on while the target has cancellation disabled; it stays pending and is acted on at the first cancellation point after it is enabled, and with deferred type nowhere else. setcancelstate and setcanceltype return the previous setting and reject other values with EINVAL without change, and a cancelled thread terminates with PTHREAD_CANCELED.",
 ["schedules","histories","inputs"],"cancel arriving at any point of a thread that changes state/type and passes cancellation points; all argument values",
 "Tests cancel at one point of a loop; the pending/disabled/enabled combinations at each instant are not covered.",
 ["pthread_cancel.c","pthread_setcancelstate.c","pthread_setcanceltype.c","pthread_testcancel.c","ptw32_throw.c"],
 [("per-thread state lock and cancel event","pthread_cancel.c, pthread_testcancel.c")],[("state/cancelState/cancelType/cancelEvent","cancellation bookkeeping","implement.h")],["where the target stops; exit status"])
p("C19","Blocking calls are cancellation points that wake up",
 "A thread blocked in a cancellation-point call (condition wait and timed wait, semaphore wait and timed wait, join and timed join, delay) is woken by pthread_cancel no matter when the request arrives relative to the blocking, while calls that are not cancellation points (mutex lock, read lock without contention handling, barrier) are unaffected and the request stays pending. The object waited on stays usable by the other threads.",
 ["schedules"],"request arriving at any instant before, during or after blocking; one target and one or two helpers",
 "Tests cancel well after the target has blocked.",
 ["w32_CancelableWait.c","pthread_join.c","pthread_timedjoin_np.c","sem_wait.c","sem_timedwait.c","pthread_cond_wait.c","pthread_delay_np.c","pthread_cancel.c"],
 [("two-object wait on the target and the cancel event","w32_CancelableWait.c")],[],["blocked target at quiescence"])
p("C20","Join and detach account for every thread exactly once",
 "pthread_join, tryjoin and timedjoin return success only after the target has finished, delivering the value it returned or exited with; tryjoin reports EBUSY and timedjoin ETIMEDOUT on a running thread, leaving it joinable. The thread's resources are released exactly once, by the join or by the end of a detached thread, under every race of exit, join and detach; joining a detached thread gives EINVAL, oneself EDEADLK, and a finished or invalid thread ESRCH.",
 ["schedules","histories"],"all interleavings of one exiting thread with joiner(s) and detacher",
 "Tests separate exit from detach/join by sleeps.",
 ["pthread_join.c","pthread_tryjoin_np.c","pthread_timedjoin_np.c","pthread_detach.c","ptw32_threadStart.c","ptw32_threadDestroy.c","pthread_win32_attach_detach_np.c","ptw32_reuse.c"],
 [("state machine under per-thread lock; detach and exit decide who destroys","pthread_detach.c, pthread_win32_attach_detach_np.c")],[],["return values, handle and record accounting"])
p("C21","Thread identities stay unique and stale ones are rejected",
 "pthread_self returns the same identity for a thread's whole life, no two live threads compare equal, and the identity of a thread that has been joined or has ended detached never again compares equal to, or is accepted as, a live thread although its record is reused. pthread_kill, cancel, detach, join and similar calls that begin with such a stale identity return ESRCH and affect no live thread.",
 ["histories","schedules"],"all create/join/detach/exit sequences of up to 4 thread lives over a shared pool, concurrent pool operations",
 "Reuse patterns over the pool and stale handles are only touched by one or two tests.",
 ["ptw32_reuse.c","ptw32_new.c","pthread_self.c","pthread_equal.c","pthread_kill.c","ptw32_threadDestroy.c"],
 [("reuse counter in the identity, FIFO pool under a lock","ptw32_reuse.c")],[],["pthread_equal, ESRCH results"])
p("C22","pthread_create starts the routine once, with what was asked, or not at all",
 "On success the start routine runs exactly once in a new thread with the given argument and the attributes given (detach state, priority, affinity, name); the identity given back to the creator is the routine's own pthread_self, and its return value reaches the joiner. On failure no thread runs, the error is returned and nothing is leaked.",
 ["inputs","fault_sequences","schedules"],"all attribute combinations, failure of each allocation or system call, child running at any moment relative to the rest of create",
 "Tests create with default or one attribute, never with failing system calls.",
 ["create.c","ptw32_threadStart.c","ptw32_new.c"],[("suspended start, parameters handed through a heap record","create.c")],[],["start routine runs, arguments, leaks"])
p("C23","Absolute timeouts convert correctly for every time value",
 "For every absolute time and every current time, the wait handed to the system is 0 when the deadline has passed, otherwise the distance in milliseconds to within rounding and never shortened by wrap-around or treated as infinite. Conversions between timespec and system time are mutually inverse over their range, and an interval given to the delay call is waited for in full or rejected with EINVAL, never shortened; the get-expiration call gives the current time plus the interval.",
 ["inputs"],"all tv_sec and all valid tv_nsec; all clock values from 1970 to the end of the FILETIME range the conversion covers",
 "Tests use deadlines a few seconds ahead; borrow across the second, far deadlines and past ones are not covered.",
 ["ptw32_relmillisecs.c","ptw32_timespec.c","pthread_delay_np.c"],[("64-bit millisecond arithmetic","ptw32_relmillisecs.c"),("100ns epoch conversion","ptw32_timespec.c")],[],["milliseconds passed to the wait call"])
p("C24","Attribute objects store what they are given and reject the rest",
 "For thread, mutex, condition, barrier and read-write lock attribute objects, every setter either stores a legal value that the getter then returns or rejects the value with the documented error leaving all fields unchanged, and initialisation gives the documented defaults. Operations on attribute objects that are uninitialised, destroyed or NULL are rejected with EINVAL.",
 ["inputs"],"all argument values of every setter/getter",
 "Tests set two or three values per attribute.",
 ["pthread_attr_init.c","pthread_attr_setdetachstate.c","pthread_attr_setinheritsched.c","pthread_attr_setschedparam.c","pthread_attr_setschedpolicy.c","pthread_attr_setscope.c","pthread_attr_setstackaddr.c","pthread_attr_setstacksize.c","pthread_mutexattr_settype.c","pthread_mutexattr_setrobust.c","pthread_mutexattr_setpshared.c","pthread_condattr_setpshared.c","pthread_barrierattr_setpshared.c","pthread_rwlockattr_setpshared.c"],
 [("validity tag","ptw32_is_attr.c")],[],["getter results and return codes"])
p("C25","CPU sets are exact sets and affinity calls honour them",
 "The CPU-set operations implement set algebra for every cpu number in range and ignore numbers out of range; affinity set on a process or thread is validated against the available processors (EINVAL, nothing changed, when no usable processor is given) and reads back as set, and that of an attribute object reads back as set. A thread inherits its creator's affinity unless its attributes say otherwise.",
 ["inputs"],"all cpu sets and cpu numbers; all process masks",
 "Tests use the first few processors of the test machine.",
 ["sched_setaffinity.c","pthread_setaffinity.c","pthread_attr_setaffinity_np.c","pthread_attr_getaffinity_np.c"],[("word mask operations","sched_setaffinity.c")],[],["mask contents, return codes"])
p("C26","Scheduling parameters are validated, mapped and reported consistently",
 "Priorities outside [sched_get_priority_min, sched_get_priority_max] and unknown policies are rejected with the documented errors and change nothing; accepted priorities are mapped monotonically onto the levels the system supports and getschedparam returns what was set (or inherited). Policy queries and concurrency settings behave alike for all arguments.",
 ["inputs"],"all policy and priority values, failure of the system call",
 "Tests loop over the legal range only.",
 ["pthread_setschedparam.c","pthread_getschedparam.c","sched_get_priority_max.c","sched_get_priority_min.c","sched_setscheduler.c","sched_getscheduler.c","pthread_setconcurrency.c","create.c"],[("priority clamping","pthread_setschedparam.c")],[],["system priority passed, values read back"])
p("C27","Failing allocations and system calls are reported cleanly",
 "If any memory allocation or kernel-object creation inside an init, create, first-use or wait call fails, the call returns the documented error (ENOMEM, ENOSPC, EAGAIN...), does not crash, leaks neither memory nor handles, leaves other objects and the calling thread's state intact, and succeeds if repeated when resources are available again.",
 ["fault_sequences"],"every single failure position (and pairs in the thorough tier) in every object's init path and thread creation",
 "Tests never inject failures.",
 ["pthread_mutex_init.c","pthread_cond_init.c","pthread_barrier_init.c","pthread_rwlock_init.c","sem_init.c","pthread_spin_init.c","pthread_key_create.c","ptw32_tkAssocCreate.c","ptw32_new.c","create.c"],[("unwind paths of the init functions","*_init.c")],[],["return codes, live allocations, open handles"])
p("C28","Starting and stopping the library leaves nothing behind",
 "Process and thread attach/detach are idempotent and ordered: the library initialises once, threads not created by it get an identity on first use and release it at thread detach, and process detach frees every record and handle the library allocated for threads that have ended. A thread that ends by any route releases its memory, handles and held robust mutexes exactly once.",
 ["histories"],"all sequences of attach/detach, thread lives and exits up to the bound",
 "Leaks and double releases are not observed by the tests.",
 ["ptw32_processInitialize.c","ptw32_processTerminate.c","pthread_win32_attach_detach_np.c","ptw32_threadDestroy.c","dll.c"],[("reuse stack freed at termination","ptw32_processTerminate.c")],[],["live allocations and open handles"])
p("C29","Destroying objects is refused while in use and final afterwards",
 "Destroying a mutex that is locked, a semaphore with waiters, a barrier, condition variable or read-write lock with waiters or holders, or a held spin lock fails with EBUSY and leaves the object working; on an idle object it succeeds once, releases its memory and handles, and later attempts to lock, wait on, signal or destroy it fail with EINVAL rather than touching freed memory (a destroyed semaphore excepted). The thread that uses an object last may destroy it at once: a destroy that races with other threads leaving the object is refused or comes after they have left, and never strands them or frees memory they still touch.",
 ["schedules","histories"],"destroy against every kind of use, sequentially and interleaved with one or two users",
 "Tests destroy idle objects or ones in a known state.",
 ["pthread_mutex_destroy.c","pthread_cond_destroy.c","pthread_barrier_destroy.c","pthread_rwlock_destroy.c","sem_destroy.c","pthread_spin_destroy.c"],[("trylock-then-invalidate","pthread_mutex_destroy.c")],[],["return codes, memory validity"])
p("C30","Thread names, unique ids and handles are stored and bounded",
 "A thread's name set by pthread_setname_np or its attributes is stored as a private copy and pthread_getname_np returns it, truncated and never written beyond the given buffer; unique ids are distinct for threads and Windows thread handles and counts reported by the non-portable calls are those of the given thread. Errors for invalid threads are reported without side effects.",
 ["inputs"],"all names up to the bound, all buffer lengths, valid and stale threads",
 "Tests use one name and one buffer size.",
 ["pthread_setname_np.c","pthread_getname_np.c","pthread_getunique_np.c","pthread_getw32threadhandle_np.c","pthread_attr_setname_np.c","pthread_attr_getname_np.c"],[("copy under the thread lock","pthread_setname_np.c")],[],["buffer contents"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("\n".join(json.dumps(x) for x in P)+"\n")
