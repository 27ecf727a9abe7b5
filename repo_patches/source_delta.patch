From b7326b17ab0b68362612b32fee9bda54bc49fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:43 +0000
Subject: [PATCH 01/33] fix: pthread_mutex_timedlock records the owner of an
 uncontended robust normal mutex

---
 pthread_mutex_timedlock.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 13372e3..31d32a2 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -253,16 +253,15 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                           break;
                         }
 	            }
-
-                  if (0 == result || EOWNERDEAD == result)
-                    {
-                      /*
-                       * Add mutex to the per-thread robust mutex currently-held list.
-                       * If the thread terminates, all mutexes in this list will be unlocked.
-                       */
-                      ptw32_robust_mutex_add(mutex, self);
-                    }
 	        }
+              if (0 == result || EOWNERDEAD == result)
+                {
+                  /*
+                   * Add mutex to the per-thread robust mutex currently-held list.
+                   * If the thread terminates, all mutexes in this list will be unlocked.
+                   */
+                  ptw32_robust_mutex_add(mutex, self);
+                }
             }
           else
             {
-- 
2.43.0


From 671e53c119c52a18a51ee2412a3740d04537f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:48 +0000
Subject: [PATCH 02/33] fix: an unrecoverable robust mutex is never acquired,
 and only its final unlock makes it unrecoverable

---
 pthread_mutex_unlock.c | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 4ccfb41..c97bea1 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -128,15 +128,25 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            */
           if (pthread_equal (mx->ownerThread, self))
             {
-              PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
-              if (PTHREAD_MUTEX_NORMAL == kind)
+              if (kind != PTHREAD_MUTEX_RECURSIVE
+                  || 0 == --mx->recursive_count)
                 {
+                  int notRecoverable =
+                    ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT ==
+                       PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                               (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                               (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT));
+
                   ptw32_robust_mutex_remove(mutex, NULL);
 
-                  if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                             (PTW32_INTERLOCKED_LONG) 0) < 0)
+                  /*
+                   * A mutex that is no longer recoverable stays locked so that no
+                   * thread that checked the state before we changed it can acquire
+                   * it. Waiting threads are woken to find ENOTRECOVERABLE.
+                   */
+                  if (notRecoverable
+                      || (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
+                                                                (PTW32_INTERLOCKED_LONG) 0) < 0)
                     {
                       /*
                        * Someone may be waiting on that mutex.
@@ -147,26 +157,6 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                         }
                     }
                 }
-              else
-                {
-                  if (kind != PTHREAD_MUTEX_RECURSIVE
-                      || 0 == --mx->recursive_count)
-                    {
-                      ptw32_robust_mutex_remove(mutex, NULL);
-
-                      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                                 (PTW32_INTERLOCKED_LONG) 0) < 0)
-                        {
-                          /*
-                           * Someone may be waiting on that mutex.
-                           */
-                          if (SetEvent (mx->event) == 0)
-                            {
-                              result = EINVAL;
-                            }
-                        }
-                    }
-                }
             }
           else
             {
-- 
2.43.0


From 866cbc0becbdbbca58a122781a6e503628aa003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 03/33] fix: sem_post_multiple rejects a count that is not
 positive, as documented

---
 sem_post_multiple.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sem_post_multiple.c b/sem_post_multiple.c
index 1095971..fe3f861 100644
--- a/sem_post_multiple.c
+++ b/sem_post_multiple.c
@@ -88,6 +88,12 @@ sem_post_multiple (sem_t * sem, int count)
   long waiters;
   sem_t s = *sem;
 
+  if (count <= 0)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
   if (s->value <= (SEM_VALUE_MAX - count))
-- 
2.43.0


From f8a28984014a4adf8939012c1c3142e28a1b4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 04/33] fix: cleanup handlers run when an implicit thread exits
 or is cancelled (C cleanup)

---
 ptw32_throw.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_throw.c b/ptw32_throw.c
index 2ae0339..c04634b 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -114,6 +114,12 @@ ptw32_throw (DWORD exception)
         }
 #endif
 
+#if defined(PTW32_CLEANUP_C)
+
+      ptw32_pop_cleanup_all (1);
+
+#endif
+
 #if defined(PTW32_STATIC_LIB)
 
       pthread_win32_thread_detach_np ();
-- 
2.43.0


From 33ea5cebae0652cdea2326a836611b9b129432f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 05/33] fix: a cancelled semaphore wait returns its unit and
 leaves other waiters their wakeups

---
 sem_timedwait.c | 21 ++++++++++-----------
 sem_wait.c      | 29 +++++++++++++----------------
 2 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/sem_timedwait.c b/sem_timedwait.c
index 5a7cbe2..7937817 100644
--- a/sem_timedwait.c
+++ b/sem_timedwait.c
@@ -69,19 +69,23 @@ ptw32_sem_timedwait_cleanup (void * args)
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
    * We either timed out or were cancelled.
-   * If someone has posted between then and now we try to take the semaphore.
-   * Otherwise the semaphore count may be wrong after we
-   * return. In the case of a cancellation, it is as if we
-   * were cancelled just before we return (after taking the semaphore)
-   * which is ok.
+   * If we timed out and someone has posted between then and now we try
+   * to take the semaphore. If we were cancelled, or did not get it, we
+   * don't have the semaphore: take back a post that no other thread is
+   * left to take, otherwise the semaphore count may be wrong.
    */
-  if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
+  if (*(a->resultPtr) != 0 && WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
     {
       /* We got the semaphore on the second attempt */
       *(a->resultPtr) = 0;
     }
   else
     {
+      if (s->value >= 0)
+        {
+          (void) WaitForSingleObject(s->sem, 0);
+        }
+
       /* Indicate we're no longer waiting */
       s->value++;
 #if defined(NEED_SEM)
@@ -89,11 +93,6 @@ ptw32_sem_timedwait_cleanup (void * args)
         {
           s->leftToUnblock = 0;
         }
-#else
-      /*
-       * Don't release the W32 sema, it doesn't need adjustment
-       * because it doesn't record the number of waiters.
-       */
 #endif
     }
   ptw32_mcs_lock_release(&node);
diff --git a/sem_wait.c b/sem_wait.c
index 1fd9259..08553c0 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -61,27 +61,24 @@ ptw32_sem_wait_cleanup(void * sem)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If sema is destroyed do nothing, otherwise:-
    * If the sema is posted between us being canceled and us locking
-   * the sema again above then we need to consume that post but cancel
-   * anyway. If we don't get the semaphore we indicate that we're no
-   * longer waiting.
+   * the sema again above and no other thread is left to take that post
+   * then we need to take it back. Either way we don't have the semaphore,
+   * so we indicate that we're no longer waiting.
    */
-  if (*((sem_t *)sem) != NULL && !(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
+  if (s->value >= 0)
     {
-      ++s->value;
+      (void) WaitForSingleObject(s->sem, 0);
+    }
+
+  ++s->value;
 #if defined(NEED_SEM)
-      if (s->value > 0)
-        {
-          s->leftToUnblock = 0;
-        }
-#else
-      /*
-       * Don't release the W32 sema, it doesn't need adjustment
-       * because it doesn't record the number of waiters.
-       */
-#endif /* NEED_SEM */
+  if (s->value > 0)
+    {
+      s->leftToUnblock = 0;
     }
+#endif /* NEED_SEM */
+
   ptw32_mcs_lock_release(&node);
 }
 
-- 
2.43.0


From 2442555df45012c14798033d827152fbda562b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/33] fix: a condition waiter that times out or is cancelled
 leaves pending wakeups to the threads still blocked

---
 pthread_cond_wait.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 926ca7a..953c249 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -274,6 +274,7 @@ typedef struct
   pthread_mutex_t *mutexPtr;
   pthread_cond_t cv;
   int *resultPtr;
+  int wokenUp;
 } ptw32_cond_wait_cleanup_args_t;
 
 static void PTW32_CDECL
@@ -300,7 +301,20 @@ ptw32_cond_wait_cleanup (void *args)
 
   if (0 != (nSignalsWasLeft = cv->nWaitersToUnblock))
     {
-      --(cv->nWaitersToUnblock);
+      if (cleanup_args->wokenUp || 0 == cv->nWaitersBlocked)
+	{
+	  --(cv->nWaitersToUnblock);
+	}
+      else
+	{
+	  /*
+	   * We timed out or were cancelled without taking a wakeup: leave
+	   * those already issued to the threads that are still blocked, and
+	   * keep later waiters out until they have been taken.
+	   */
+	  --(cv->nWaitersBlocked);
+	  nSignalsWasLeft = 0;
+	}
     }
   else if (INT_MAX / 2 == ++(cv->nWaitersGone))
     {
@@ -404,6 +418,7 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
   cleanup_args.mutexPtr = mutex;
   cleanup_args.cv = cv;
   cleanup_args.resultPtr = &result;
+  cleanup_args.wokenUp = 0;
 
 #if defined(PTW32_CONFIG_MSVC7)
 #pragma inline_depth(0)
@@ -436,6 +451,10 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 	{
 	  result = PTW32_GET_ERRNO();
 	}
+      else
+	{
+	  cleanup_args.wokenUp = 1;
+	}
     }
 
   /*
-- 
2.43.0


From 98f202c780a49b7d905c72d4f2ac6214c8ad7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 07/33] fix: sem_destroy does not report a semaphore busy
 because another thread is just leaving sem_post

---
 sem_destroy.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index 99d0b35..b668c36 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -91,26 +91,29 @@ sem_destroy (sem_t * sem)
       ptw32_mcs_local_node_t node;
       s = *sem;
 
-      if ((result = ptw32_mcs_lock_try_acquire(&s->lock, &node)) == 0)
+      /*
+       * The lock is only ever held briefly. Another thread can hold it here
+       * without the semaphore being in use, e.g. the thread whose sem_post
+       * we have just been woken by.
+       */
+      ptw32_mcs_lock_acquire(&s->lock, &node);
+      if (s->value < 0)
         {
-          if (s->value < 0)
-            {
-              result = EBUSY;
-            }
-          else
+          result = EBUSY;
+        }
+      else
+        {
+          /*
+           * There are no threads currently blocked on this semaphore
+           * however there could be threads about to wait behind us.
+           * It is up to the application to ensure this is not the case.
+           */
+          if (!CloseHandle (s->sem))
             {
-              /*
-               * There are no threads currently blocked on this semaphore
-               * however there could be threads about to wait behind us.
-               * It is up to the application to ensure this is not the case.
-               */
-              if (!CloseHandle (s->sem))
-                {
-                  result = EINVAL;
-                }
+              result = EINVAL;
             }
-          ptw32_mcs_lock_release(&node);
         }
+      ptw32_mcs_lock_release(&node);
     }
 
   if (result != 0)
-- 
2.43.0


From fd961c56778968b9a0992b533b9f1c4f16ca1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 08/33] fix: pthread_rwlock_destroy reports EBUSY on a
 write-locked lock instead of blocking

---
 pthread_rwlock_destroy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pthread_rwlock_destroy.c b/pthread_rwlock_destroy.c
index 3288d20..b95941c 100644
--- a/pthread_rwlock_destroy.c
+++ b/pthread_rwlock_destroy.c
@@ -66,7 +66,11 @@ pthread_rwlock_destroy (pthread_rwlock_t * rwlock)
 	  return EINVAL;
 	}
 
-      if ((result = pthread_mutex_lock (&(rwl->mtxExclusiveAccess))) != 0)
+      /*
+       * A writer that holds the lock, or waits for readers to leave, owns
+       * this mutex: don't block on it, report that the lock is in use.
+       */
+      if ((result = pthread_mutex_trylock (&(rwl->mtxExclusiveAccess))) != 0)
 	{
 	  return result;
 	}
-- 
2.43.0


From dbb91c5785e0c22d619805fdc44f501860b4603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 09/33] fix: destroying a held spin lock gives EBUSY, as
 documented

---
 pthread_spin_destroy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_spin_destroy.c b/pthread_spin_destroy.c
index 30a7bac..10dd74a 100644
--- a/pthread_spin_destroy.c
+++ b/pthread_spin_destroy.c
@@ -67,7 +67,7 @@ pthread_spin_destroy (pthread_spinlock_t * lock)
 						   (PTW32_INTERLOCKED_LONG) PTW32_SPIN_INVALID,
 						   (PTW32_INTERLOCKED_LONG) PTW32_SPIN_UNLOCKED))
 	{
-	  result = EINVAL;
+	  result = EBUSY;
 	}
 
       if (0 == result)
-- 
2.43.0


From d3d3b336b61c7df25554fa9d07b1e9878ce5241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 10/33] fix: pthread_attr_setscope and pthread_attr_getscope
 reject an invalid attribute object

---
 pthread_attr_getscope.c | 5 +++++
 pthread_attr_setscope.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pthread_attr_getscope.c b/pthread_attr_getscope.c
index 0136c4b..f384999 100644
--- a/pthread_attr_getscope.c
+++ b/pthread_attr_getscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_getscope (const pthread_attr_t * attr, int *contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   *contentionscope = (*attr)->contentionscope;
   return 0;
 #else
diff --git a/pthread_attr_setscope.c b/pthread_attr_setscope.c
index ddf8b11..554ba54 100644
--- a/pthread_attr_setscope.c
+++ b/pthread_attr_setscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_setscope (pthread_attr_t * attr, int contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   switch (contentionscope)
     {
     case PTHREAD_SCOPE_SYSTEM:
-- 
2.43.0


From 610220945f3014c8803a6caed6c3d8a80ca6ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 11/33] fix: the setname calls reject an invalid attribute
 object and report ENOMEM instead of dropping the name

---
 pthread_attr_setname_np.c | 18 ++++++++++++++++++
 pthread_setname_np.c      |  8 ++++++++
 2 files changed, 26 insertions(+)

diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 2ab34de..0f99f94 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -53,6 +53,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   /*
    * According to the MSDN description for snprintf()
    * where count is the second parameter:
@@ -70,6 +75,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
@@ -87,7 +96,16 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 25a0339..1e81b37 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -118,6 +118,10 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
@@ -167,6 +171,10 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
-- 
2.43.0


From d293a3475a3099e6b3da8f1fd0860d8db4c936c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 12/33] fix: the getname calls return the stored name, stay
 within the buffer and accept unnamed threads

---
 pthread_attr_getname_np.c | 24 ++++++++++++++----------
 pthread_getname_np.c      | 11 +++++++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pthread_attr_getname_np.c b/pthread_attr_getname_np.c
index b707410..10a9f0d 100644
--- a/pthread_attr_getname_np.c
+++ b/pthread_attr_getname_np.c
@@ -45,16 +45,20 @@
 int
 pthread_attr_getname_np(pthread_attr_t * attr, char *name, int len)
 {
-  //strncpy_s(name, len - 1, (*attr)->thrname, len - 1);
-#if defined(_MSVCRT_)
-# pragma warning(suppress:4996)
-  strncpy(name, (*attr)->thrname, len - 1);
-  (*attr)->thrname[len - 1] = '\0';
-#else // _MSVCRT_
-  (void)attr;
-  (void)name;
-  (void)len;
-#endif // _MSVCRT_
+  const char * s;
+  char * d;
+
+  if (ptw32_is_attr (attr) != 0 || name == NULL || len <= 0)
+    {
+      return EINVAL;
+    }
+
+  /* An unnamed attribute object reads as the empty string. */
+  s = (*attr)->thrname != NULL ? (*attr)->thrname : "";
+  for (d = name; *s && d < &name[len - 1]; *d++ = *s++)
+    {}
+
+  *d = '\0';
 
   return 0;
 }
diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index d5efeb6..ca21b39 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -46,7 +46,8 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 {
   ptw32_mcs_local_node_t threadLock;
   ptw32_thread_t * tp;
-  char * s, * d;
+  const char * s;
+  char * d;
   int result;
 
   /*
@@ -60,11 +61,17 @@ pthread_getname_np(pthread_t thr, char *name, int len)
       return result;
     }
 
+  if (name == NULL || len <= 0)
+    {
+      return EINVAL;
+    }
+
   tp = (ptw32_thread_t *) thr.p;
 
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
-  for (s = tp->name, d = name; *s && d < &name[len - 1]; *d++ = *s++)
+  /* Threads have no name by default: that reads as the empty string. */
+  for (s = tp->name != NULL ? tp->name : "", d = name; *s && d < &name[len - 1]; *d++ = *s++)
     {}
 
   *d = '\0';
-- 
2.43.0


From 4f9a6b66f29409f0bca4b4ed30bacb25bb47e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 13/33] fix: the name of an attribute object or thread is
 released with it

---
 pthread_attr_destroy.c | 1 +
 ptw32_threadDestroy.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pthread_attr_destroy.c b/pthread_attr_destroy.c
index e1a8b48..aecfcd5 100644
--- a/pthread_attr_destroy.c
+++ b/pthread_attr_destroy.c
@@ -79,6 +79,7 @@ pthread_attr_destroy (pthread_attr_t * attr)
    * Set the attribute object to a specific invalid value.
    */
   (*attr)->valid = 0;
+  free ((*attr)->thrname);
   free (*attr);
   *attr = NULL;
 
diff --git a/ptw32_threadDestroy.c b/ptw32_threadDestroy.c
index 978df22..1852a20 100644
--- a/ptw32_threadDestroy.c
+++ b/ptw32_threadDestroy.c
@@ -60,6 +60,7 @@ ptw32_threadDestroy (pthread_t thread)
       HANDLE threadH = tp->threadH;
 #endif
       HANDLE cancelEvent = tp->cancelEvent;
+      char * name = tp->name;
 
       /*
        * Thread ID structs are never freed. They're NULLed and reused.
@@ -69,6 +70,8 @@ ptw32_threadDestroy (pthread_t thread)
       ptw32_threadReusePush (thread);
 
       /* Now work on the copies as the `tp` instance has already been nulled. */
+      free (name);
+
       if (cancelEvent != NULL)
 	{
 	  CloseHandle (cancelEvent);
-- 
2.43.0


From cd10f0d4e02fe9e5b8d433ebe0beee03dfd2d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 14/33] fix: unique thread ids are unique when threads are
 created at the same time

---
 ptw32_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_new.c b/ptw32_new.c
index 1039c75..b0e8235 100644
--- a/ptw32_new.c
+++ b/ptw32_new.c
@@ -51,6 +51,7 @@ ptw32_new (void)
   pthread_t t;
   pthread_t nil = {NULL, 0};
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t node;
 
   /*
    * If there's a reusable pthread_t then use it.
@@ -77,7 +78,9 @@ ptw32_new (void)
     }
 
   /* Set default state. */
+  ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
   tp->seqNumber = ++ptw32_threadSeqNumber;
+  ptw32_mcs_lock_release(&node);
   tp->sched_priority = THREAD_PRIORITY_NORMAL;
   tp->detachState = PTHREAD_CREATE_JOINABLE;
   tp->cancelState = PTHREAD_CANCEL_ENABLE;
-- 
2.43.0


From cfc157862edc069b1721c881ab5f4388906eb2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 15/33] fix: CPU set operations ignore processor numbers out of
 range

---
 sched_setaffinity.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sched_setaffinity.c b/sched_setaffinity.c
index ccde22b..8dc238a 100644
--- a/sched_setaffinity.c
+++ b/sched_setaffinity.c
@@ -313,19 +313,27 @@ void _sched_affinitycpuzero (cpu_set_t *pset)
 	((_sched_cpu_set_vector_*)pset)->_cpuset = (size_t)0;
 }
 
+/*
+ * Is this the number of a processor that a set can contain?
+ */
+#define PTW32_CPU_IN_RANGE(cpu) ((cpu) >= 0 && (size_t)(cpu) < CPU_SETSIZE)
+
 void _sched_affinitycpuset (int cpu, cpu_set_t *pset)
 {
-	((_sched_cpu_set_vector_*)pset)->_cpuset |= ((size_t)1 << cpu);
+	if (PTW32_CPU_IN_RANGE(cpu))
+	  ((_sched_cpu_set_vector_*)pset)->_cpuset |= ((size_t)1 << cpu);
 }
 
 void _sched_affinitycpuclr (int cpu, cpu_set_t *pset)
 {
-	((_sched_cpu_set_vector_*)pset)->_cpuset &= ~((size_t)1 << cpu);
+	if (PTW32_CPU_IN_RANGE(cpu))
+	  ((_sched_cpu_set_vector_*)pset)->_cpuset &= ~((size_t)1 << cpu);
 }
 
 int _sched_affinitycpuisset (int cpu, const cpu_set_t *pset)
 {
-	return ((((_sched_cpu_set_vector_*)pset)->_cpuset &
+	return PTW32_CPU_IN_RANGE(cpu) &&
+			((((_sched_cpu_set_vector_*)pset)->_cpuset &
 			((size_t)1 << cpu)) != (size_t)0);
 }
 
-- 
2.43.0


From b5517c62721de3a3a9f5a2a279b8fc334bbc372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 16/33] fix: a thread created with an affinity attribute gets
 its available processors only

---
 create.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/create.c b/create.c
index 1e15a90..32fa15e 100644
--- a/create.c
+++ b/create.c
@@ -162,7 +162,22 @@ pthread_create (pthread_t * tid,
       CPU_ZERO(&none);
       if (! CPU_EQUAL(&attr_cpuset, &none))
         {
-          tp->cpuset = a->cpuset;
+          cpu_set_t processCpuset;
+
+          /*
+           * As for pthread_setaffinity_np(), the thread runs on the intersection
+           * of the set given and the CPUs available to the process.
+           */
+          if (sched_getaffinity(0, sizeof(cpu_set_t), &processCpuset) == 0)
+            {
+              CPU_AND(&attr_cpuset, &attr_cpuset, &processCpuset);
+            }
+          if (CPU_EQUAL(&attr_cpuset, &none))
+            {
+              result = EINVAL;
+              goto FAIL0;
+            }
+          tp->cpuset = ((_sched_cpu_set_vector_*)&attr_cpuset)->_cpuset;
         }
 #endif
       stackSize = (unsigned int)a->stacksize;
-- 
2.43.0


From 9a973e6c575e3119233560930ac56956f24938cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 17/33] fix: system times after 2038 convert without losing
 their high bits

---
 ptw32_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptw32_timespec.c b/ptw32_timespec.c
index a1e3ac1..4119a0c 100644
--- a/ptw32_timespec.c
+++ b/ptw32_timespec.c
@@ -78,7 +78,7 @@ ptw32_filetime_to_timespec (const FILETIME * ft, struct timespec *ts)
       */
 {
   ts->tv_sec =
-    (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
+    (time_t) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
   ts->tv_nsec =
     (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET -
 	    ((uint64_t) ts->tv_sec * (uint64_t) 10000000UL)) * 100);
-- 
2.43.0


From 4e488c7aadbea2d9b8d27fa81d5abb54fe8fdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 18/33] fix: distant absolute deadlines do not wrap around

---
 ptw32_relmillisecs.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index 7123d7d..f04c9e9 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -44,6 +44,7 @@
 #include "pthread.h"
 #include "implement.h"
 
+static const int64_t INT64_MAX_NANOSECONDS = 0x7FFFFFFFFFFFFFFFLL;
 static const int64_t NANOSEC_PER_SEC = 1000000000;
 static const int64_t NANOSEC_PER_MILLISEC = 1000000;
 static const int64_t MILLISEC_PER_SEC = 1000;
@@ -76,7 +77,20 @@ ptw32_relmillisecs (const struct timespec * abstime)
    *
    * Assume all integers are unsigned, i.e. cannot test if less than 0.
    */
-  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+  if ((int64_t)abstime->tv_sec < 0)
+    {
+      /* Before 1970: long past */
+      tmpAbsNanoseconds = 0;
+    }
+  else if ((int64_t)abstime->tv_sec >= INT64_MAX_NANOSECONDS / NANOSEC_PER_SEC)
+    {
+      /* Too distant to be expressed in nanoseconds */
+      tmpAbsNanoseconds = INT64_MAX_NANOSECONDS;
+    }
+  else
+    {
+      tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+    }
 
   /* get current system time */
 
-- 
2.43.0


From 43c78dd81945342fec92fee1700f26cea6665138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 19/33] fix: pthread_delay_np computes the interval in 64 bits
 and rejects what cannot be waited for

---
 pthread_delay_np.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index ac094d6..0091263 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -89,8 +89,7 @@ int
 pthread_delay_np (struct timespec *interval)
 {
   DWORD wait_time;
-  DWORD secs_in_millisecs;
-  DWORD millisecs;
+  int64_t millisecs;
   DWORD status;
   pthread_t self;
   ptw32_thread_t * sp;
@@ -108,21 +107,25 @@ pthread_delay_np (struct timespec *interval)
       return (0);
     }
 
-  /* convert secs to millisecs */
-  secs_in_millisecs = (DWORD)interval->tv_sec * 1000L;
+  /* more seconds than the longest wait has milliseconds are not accepted below */
+  if ((int64_t)interval->tv_sec < 0 || (int64_t)interval->tv_sec > INT_MAX)
+    {
+      return EINVAL;
+    }
 
-  /* convert nanosecs to millisecs (rounding up) */
-  millisecs = (interval->tv_nsec + 999999L) / 1000000L;
+  /* convert secs to millisecs and nanosecs to millisecs (rounding up) */
+  millisecs = (int64_t)interval->tv_sec * 1000
+    + ((int64_t)interval->tv_nsec + 999999) / 1000000;
 
 #if defined(__WATCOMC__)
 #pragma disable_message (124)
 #endif
 
-  wait_time = secs_in_millisecs + millisecs;
-  if (0 > (int)wait_time)
+  if (millisecs < 0 || millisecs > INT_MAX)
     {
       return EINVAL;
     }
+  wait_time = (DWORD)millisecs;
 
 #if defined(__WATCOMC__)
 #pragma enable_message (124)
-- 
2.43.0


From da5eec3822d47162bf9d10300dd3e4e36261e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 20/33] fix: a cancel request made before the thread starts to
 run is kept

---
 ptw32_threadStart.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 45aadbf..aae9d89 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -167,7 +167,11 @@ ptw32_threadStart (void *vthreadParms)
    * has the new handle.
    */
   ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
-  sp->state = PThreadStateRunning;
+  if (sp->state < PThreadStateRunning)
+    {
+      /* Otherwise we have been asked to cancel already. */
+      sp->state = PThreadStateRunning;
+    }
   ptw32_mcs_lock_release (&stateLock);
 
 #if defined(PTW32_CLEANUP_SEH)
-- 
2.43.0


From 7ce0021f46df5c150f3782ff74551bf010259cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 21/33] fix: a cleanup handler is removed before it runs

---
 cleanup.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cleanup.c b/cleanup.c
index 4b20d5a..7fbab92 100644
--- a/cleanup.c
+++ b/cleanup.c
@@ -89,6 +89,12 @@ ptw32_pop_cleanup (int execute)
 
   if (cleanup != NULL)
     {
+      /*
+       * Remove the handler first: it must not run again if the thread is
+       * cancelled or exits while it runs.
+       */
+      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
+
       if (execute && (cleanup->routine != NULL))
 	{
 
@@ -96,8 +102,6 @@ ptw32_pop_cleanup (int execute)
 
 	}
 
-      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
-
     }
 
   return (cleanup);
-- 
2.43.0


From e744c2fb0b3320fb00b6c5c3d182ecc24ab284d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:35 +0000
Subject: [PATCH 22/33] fix: an asynchronous cancel request that finds its
 target exiting lets go of it again

---
 pthread_cancel.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pthread_cancel.c b/pthread_cancel.c
index 0e1a5cc..4e78fdb 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -163,7 +163,11 @@ pthread_cancel (pthread_t thread)
 
 	  SuspendThread (threadH);
 
-	  if (WaitForSingleObject (threadH, 0) == WAIT_TIMEOUT)
+	  /*
+	   * The target may have begun to exit before it was suspended.
+	   */
+	  if (tp->state < PThreadStateCanceling
+	      && WaitForSingleObject (threadH, 0) == WAIT_TIMEOUT)
 	    {
 	      tp->state = PThreadStateCanceling;
 	      tp->cancelState = PTHREAD_CANCEL_DISABLE;
@@ -177,6 +181,12 @@ pthread_cancel (pthread_t thread)
 	      ptw32_mcs_lock_release (&stateLock);
 	      ResumeThread (threadH);
 	    }
+	  else
+	    {
+	      ptw32_mcs_lock_release (&stateLock);
+	      ResumeThread (threadH);
+	      result = ESRCH;
+	    }
 	}
     }
   else
-- 
2.43.0


From f05e32660a412e5434306e395ed3fa7c25445e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:35 +0000
Subject: [PATCH 23/33] fix: a cancel request does not revive a thread that is
 exiting

---
 pthread_cancel.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pthread_cancel.c b/pthread_cancel.c
index 4e78fdb..3d21a0c 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -194,9 +194,18 @@ pthread_cancel (pthread_t thread)
       /*
        * Set for deferred cancellation.
        */
-      if (tp->state < PThreadStateCancelPending)
+      PThreadState state = tp->state;
+
+      /*
+       * The target does not take its stateLock to enter PThreadStateExiting,
+       * and must not be called back from there.
+       */
+      if (state < PThreadStateCancelPending
+	  && PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&tp->state,
+						      (PTW32_INTERLOCKED_LONG)PThreadStateCancelPending,
+						      (PTW32_INTERLOCKED_LONG)state)
+	     == (PTW32_INTERLOCKED_LONG)state)
 	{
-	  tp->state = PThreadStateCancelPending;
 	  if (!SetEvent (tp->cancelEvent))
 	    {
 	      result = ESRCH;
-- 
2.43.0


From b2adb63569583e27606c4029a97bf01c7b084736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 24/33] fix: a thread detached while it exits is destroyed by
 itself only

---
 pthread_detach.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pthread_detach.c b/pthread_detach.c
index df19c64..9b5479f 100644
--- a/pthread_detach.c
+++ b/pthread_detach.c
@@ -110,11 +110,10 @@ pthread_detach (pthread_t thread)
       ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
       if (tp->state < PThreadStateLast)
         {
+          /*
+           * The thread will destroy itself, even if it is exiting.
+           */
           tp->detachState = PTHREAD_CREATE_DETACHED;
-          if (tp->state == PThreadStateExiting)
-          {
-            destroyIt = PTW32_TRUE;
-          }
         }
       else if (tp->detachState != PTHREAD_CREATE_DETACHED)
         {
-- 
2.43.0


From 6f7b9b210ef74fcc49f6e00c8c1c9db223793a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 25/33] fix: a thread that is exiting is not interrupted by a
 cancel request

---
 ptw32_threadStart.c | 3 +++
 ptw32_throw.c       | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index aae9d89..2ab9d12 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -185,6 +185,7 @@ ptw32_threadStart (void *vthreadParms)
            */
           status = sp->exitStatus = (*start) (arg);
           sp->state = PThreadStateExiting;
+          sp->cancelState = PTHREAD_CANCEL_DISABLE;
 
 #if defined(_UWIN)
           if (--pthread_count <= 0)
@@ -236,6 +237,7 @@ ptw32_threadStart (void *vthreadParms)
        */
       status = sp->exitStatus = (*start) (arg);
       sp->state = PThreadStateExiting;
+      sp->cancelState = PTHREAD_CANCEL_DISABLE;
     }
   else
     {
@@ -261,6 +263,7 @@ ptw32_threadStart (void *vthreadParms)
   {
     status = sp->exitStatus = (*start) (arg);
     sp->state = PThreadStateExiting;
+    sp->cancelState = PTHREAD_CANCEL_DISABLE;
   }
   catch (ptw32_exception_cancel &)
   {
diff --git a/ptw32_throw.c b/ptw32_throw.c
index c04634b..a295df4 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -81,7 +81,11 @@ ptw32_throw (DWORD exception)
   ULONG_PTR exceptionInformation[3];
 #endif
   if( sp )
-    sp->state = PThreadStateExiting;
+    {
+      sp->state = PThreadStateExiting;
+      /* A request that comes or came too late must not interrupt the handlers. */
+      sp->cancelState = PTHREAD_CANCEL_DISABLE;
+    }
 
   if (exception != PTW32_EPS_CANCEL && exception != PTW32_EPS_EXIT)
     {
-- 
2.43.0


From 02e1fa46da222af996b908d57589054b217c9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 26/33] fix: pthread_create fails when it cannot copy the
 thread's name

---
 create.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/create.c b/create.c
index 32fa15e..8f54be4 100644
--- a/create.c
+++ b/create.c
@@ -183,8 +183,11 @@ pthread_create (pthread_t * tid,
       stackSize = (unsigned int)a->stacksize;
       tp->detachState = a->detachstate;
       priority = a->param.sched_priority;
-      if (a->thrname != NULL)
-        tp->name = ptw32_strdup(a->thrname);
+      if (a->thrname != NULL
+          && (tp->name = ptw32_strdup(a->thrname)) == NULL)
+        {
+          goto FAIL0;
+        }
 
 #if (THREAD_PRIORITY_LOWEST > THREAD_PRIORITY_NORMAL)
       /* WinCE */
-- 
2.43.0


From 79d71e341120f51aaa6a086851ce02e5db3a16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 27/33] fix: a queue lock waiter waits even if no event can be
 created

---
 ptw32_MCS_lock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index dc13061..30bf3f0 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -159,6 +159,16 @@ ptw32_mcs_flag_wait (HANDLE * flag)
 
           CloseHandle(e);
       }
+      else
+      {
+          /* no event to wait on. wait for the flag itself. */
+          while ((PTW32_INTERLOCKED_SIZE)0 ==
+                   PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)flag,
+                                                       (PTW32_INTERLOCKED_SIZE)0))
+            {
+              sched_yield();
+            }
+      }
     }
 }
 
-- 
2.43.0


From cb3fa58318f3a21e332e7980cffe3fa0a0a00135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 28/33] fix: a statically initialised object survives a failing
 first use

---
 ptw32_cond_check_need_init.c     | 11 ++++++++++-
 ptw32_mutex_check_need_init.c    | 15 ++++++++++++---
 ptw32_rwlock_check_need_init.c   | 11 ++++++++++-
 ptw32_spinlock_check_need_init.c | 11 ++++++++++-
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/ptw32_cond_check_need_init.c b/ptw32_cond_check_need_init.c
index 616a891..b00b539 100644
--- a/ptw32_cond_check_need_init.c
+++ b/ptw32_cond_check_need_init.c
@@ -50,6 +50,7 @@ INLINE int
 ptw32_cond_check_need_init (pthread_cond_t * cond)
 {
   int result = 0;
+  pthread_cond_t newobj = NULL;
   ptw32_mcs_local_node_t node;
 
   /*
@@ -67,7 +68,7 @@ ptw32_cond_check_need_init (pthread_cond_t * cond)
    */
   if (*cond == PTHREAD_COND_INITIALIZER)
     {
-      result = pthread_cond_init (cond, NULL);
+      result = pthread_cond_init (&newobj, NULL);
     }
   else if (*cond == NULL)
     {
@@ -79,6 +80,14 @@ ptw32_cond_check_need_init (pthread_cond_t * cond)
       result = EINVAL;
     }
 
+  /*
+   * Store nothing on failure, so that first use can be tried again.
+   */
+  if (newobj != NULL)
+    {
+      *cond = newobj;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return result;
diff --git a/ptw32_mutex_check_need_init.c b/ptw32_mutex_check_need_init.c
index 98744a5..a309eaa 100644
--- a/ptw32_mutex_check_need_init.c
+++ b/ptw32_mutex_check_need_init.c
@@ -57,6 +57,7 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 {
   int result = 0;
   pthread_mutex_t mtx;
+  pthread_mutex_t newmtx = NULL;
   ptw32_mcs_local_node_t node;
 
   ptw32_mcs_lock_acquire(&ptw32_mutex_test_init_lock, &node);
@@ -73,15 +74,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 
   if (mtx == PTHREAD_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, NULL);
+      result = pthread_mutex_init (&newmtx, NULL);
     }
   else if (mtx == PTHREAD_RECURSIVE_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_recursive_mutexattr);
+      result = pthread_mutex_init (&newmtx, &ptw32_recursive_mutexattr);
     }
   else if (mtx == PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_errorcheck_mutexattr);
+      result = pthread_mutex_init (&newmtx, &ptw32_errorcheck_mutexattr);
     }
   else if (mtx == NULL)
     {
@@ -93,6 +94,14 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
       result = EINVAL;
     }
 
+  /*
+   * Store nothing on failure, so that first use can be tried again.
+   */
+  if (newmtx != NULL)
+    {
+      *mutex = newmtx;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return (result);
diff --git a/ptw32_rwlock_check_need_init.c b/ptw32_rwlock_check_need_init.c
index 3d2c447..22fd755 100644
--- a/ptw32_rwlock_check_need_init.c
+++ b/ptw32_rwlock_check_need_init.c
@@ -48,6 +48,7 @@ INLINE int
 ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
 {
   int result = 0;
+  pthread_rwlock_t newobj = NULL;
   ptw32_mcs_local_node_t node;
 
   /*
@@ -66,7 +67,7 @@ ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
    */
   if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)
     {
-      result = pthread_rwlock_init (rwlock, NULL);
+      result = pthread_rwlock_init (&newobj, NULL);
     }
   else if (*rwlock == NULL)
     {
@@ -78,6 +79,14 @@ ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
       result = EINVAL;
     }
 
+  /*
+   * Store nothing on failure, so that first use can be tried again.
+   */
+  if (newobj != NULL)
+    {
+      *rwlock = newobj;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return result;
diff --git a/ptw32_spinlock_check_need_init.c b/ptw32_spinlock_check_need_init.c
index 7a49b87..c4708e6 100644
--- a/ptw32_spinlock_check_need_init.c
+++ b/ptw32_spinlock_check_need_init.c
@@ -49,6 +49,7 @@ INLINE int
 ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
 {
   int result = 0;
+  pthread_spinlock_t newobj = NULL;
   ptw32_mcs_local_node_t node;
 
   /*
@@ -67,7 +68,7 @@ ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
    */
   if (*lock == PTHREAD_SPINLOCK_INITIALIZER)
     {
-      result = pthread_spin_init (lock, PTHREAD_PROCESS_PRIVATE);
+      result = pthread_spin_init (&newobj, PTHREAD_PROCESS_PRIVATE);
     }
   else if (*lock == NULL)
     {
@@ -79,6 +80,14 @@ ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
       result = EINVAL;
     }
 
+  /*
+   * Store nothing on failure, so that first use can be tried again.
+   */
+  if (newobj != NULL)
+    {
+      *lock = newobj;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return (result);
-- 
2.43.0


From d660ce03b5decdab05d204c2be1744aaccb50828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 29/33] fix: a failing library initialisation is reported and
 leaves nothing

---
 ptw32_processInitialize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_processInitialize.c b/ptw32_processInitialize.c
index b73206e..29198ad 100644
--- a/ptw32_processInitialize.c
+++ b/ptw32_processInitialize.c
@@ -150,7 +150,10 @@ ptw32_processInitialize (void)
   if ((pthread_key_create (&ptw32_selfThreadKey, NULL) != 0) ||
       (pthread_key_create (&ptw32_cleanupKey, NULL) != 0))
     {
+      /* Release what has been created; this resets ptw32_processInitialized. */
+      ptw32_processInitialized = PTW32_TRUE;
       ptw32_processTerminate ();
+      return (ptw32_processInitialized);
     }
   ptw32_processInitialized = PTW32_TRUE;
   return (ptw32_processInitialized);
-- 
2.43.0


From 147177c85ca3351c79574f958c308163d7d6493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 30/33] fix: pthread_self reports failures to create an
 identity and releases what it has

---
 pthread_self.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pthread_self.c b/pthread_self.c
index c758b7a..c9c8f6b 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -95,7 +95,11 @@ pthread_self (void)
       self = ptw32_new ();
       sp = (ptw32_thread_t *) self.p;
 
-      if (sp != NULL)
+      if (sp == NULL)
+        {
+	  return nil;
+        }
+      else
         {
     	  /*
     	   * This is a non-POSIX thread which has chosen to call
@@ -125,6 +129,7 @@ pthread_self (void)
 				&sp->threadH,
 				0, FALSE, DUPLICATE_SAME_ACCESS))
     	    {
+    		  sp->threadH = 0;
     		  fail = PTW32_TRUE;
     	    }
 #endif
@@ -162,7 +167,10 @@ pthread_self (void)
     	       * because the new handle is not yet public.
     	       */
     	      sp->sched_priority = GetThreadPriority (sp->threadH);
-    	      pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	      if (fail || pthread_setspecific (ptw32_selfThreadKey, (void *) sp) != 0)
+    	        {
+    	          fail = PTW32_TRUE;
+    	        }
     	    }
         }
 
@@ -172,8 +180,7 @@ pthread_self (void)
     	   * Thread structs are never freed but are reused so if this
     	   * continues to fail at least we don't leak memory.
     	   */
-		  sp->threadH = 0;	// [i_a]
-    	  ptw32_threadReusePush (self);
+    	  ptw32_threadDestroy (self);
     	  /*
     	   * As this is a win32 thread calling us and we have failed,
     	   * return a value that makes sense to win32.
-- 
2.43.0


From b5a1bf442dd76b0df3196b8dcb7ebe19efa97d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:37 +0000
Subject: [PATCH 31/33] fix: pthread_mutex_init reports ENOMEM instead of
 crashing

---
 pthread_mutex_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_mutex_init.c b/pthread_mutex_init.c
index 4fac214..a7b72ff 100644
--- a/pthread_mutex_init.c
+++ b/pthread_mutex_init.c
@@ -139,7 +139,7 @@ pthread_mutex_init (pthread_mutex_t * mutex, const pthread_mutexattr_t * attr)
 	}
     }
 
-  if (0 != result)
+  if (0 != result && mx != NULL)
     {
       if (NULL != mx->robustNode)
 	{
-- 
2.43.0


From 6884f222997ef2498551e053c4e1d33b462cdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:07 +0000
Subject: [PATCH 32/33] fix: pthread_mutex_destroy refuses a nested robust
 mutex and takes one whose owner died

---
 pthread_mutex_destroy.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 82cc088..7ec1ae2 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -66,11 +66,15 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 
       /*
        * If trylock succeeded and the mutex is not recursively locked it
-       * can be destroyed.
+       * can be destroyed. This includes robust mutexes (which have negative
+       * kinds) whose owner has died, and those that can't be locked any more.
        */
-      if (0 == result || ENOTRECOVERABLE == result)
+      if (0 == result || EOWNERDEAD == result || ENOTRECOVERABLE == result)
 	{
-	  if (mx->kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+	  if ((mx->kind != PTHREAD_MUTEX_RECURSIVE
+	       && mx->kind != -PTHREAD_MUTEX_RECURSIVE - 1)
+	      || ENOTRECOVERABLE == result
+	      || 1 == mx->recursive_count)
 	    {
 	      /*
 	       * FIXME!!!
@@ -81,7 +85,7 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 	       */
 	      *mutex = NULL;
 
-	      result = (0 == result)?pthread_mutex_unlock(&mx):0;
+	      result = (ENOTRECOVERABLE == result)?0:pthread_mutex_unlock(&mx);
 
 	      if (0 == result)
 		{
-- 
2.43.0


From 3c635d39b8496fcbec0c8ec8cb0be176b009bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:07 +0000
Subject: [PATCH 33/33] fix: pthread_barrier_wait does not touch the barrier
 after its last thread may destroy it

---
 pthread_barrier_wait.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pthread_barrier_wait.c b/pthread_barrier_wait.c
index e2b313f..7653f93 100644
--- a/pthread_barrier_wait.c
+++ b/pthread_barrier_wait.c
@@ -52,6 +52,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
   pthread_barrier_t b;
 
   ptw32_mcs_local_node_t node;
+  unsigned int nInitialBarrierHeight;
 
   if (barrier == NULL || *barrier == (pthread_barrier_t) PTW32_OBJECT_INVALID)
     {
@@ -61,6 +62,13 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
   ptw32_mcs_lock_acquire(&(*barrier)->lock, &node);
 
   b = *barrier;
+
+  /*
+   * Once we have been counted below, the last thread to cross the barrier
+   * can return and destroy it, so don't look at it again then.
+   */
+  nInitialBarrierHeight = b->nInitialBarrierHeight;
+
   if (--b->nCurrentBarrierHeight == 0)
     {
       /*
@@ -95,7 +103,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
     }
 
   if ((PTW32_INTERLOCKED_LONG)PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&b->nCurrentBarrierHeight)
-		  == (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight)
+		  == (PTW32_INTERLOCKED_LONG)nInitialBarrierHeight)
     {
       /*
        * We are the last thread to cross this barrier
-- 
2.43.0

