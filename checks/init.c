/* C13: first use of a statically initialised object by several threads. OBJ: 1 mutex, 2 cond, 3 rwlock, 4 spin.
   ops: L U (lock/unlock), T try, M timed, R read lock, S signal, B broadcast, W expiring wait, P poll the identity of the object.
   RACE: thread NT holds the guard of first uses until all others wait for it, one of them in destroy (D). */
#include "h.h"
#if defined(RACE)
#include "config.h"
#include "implement.h"
#endif
#ifndef STATIC
#define STATIC PTHREAD_MUTEX_INITIALIZER
#endif
#ifndef OBJ
#define OBJ 1
#endif
static int h1, a1, hd, ad, n; static void *handle[VX_MAXT];
#if OBJ == 1
static pthread_mutex_t o = STATIC, ref = STATIC;
#define USE(x) (pthread_mutex_lock(x) || pthread_mutex_unlock(x))
#define DESTROY pthread_mutex_destroy
#define UNLOCK pthread_mutex_unlock
#define GUARD ptw32_mutex_test_init_lock
#define UNINIT(x) (x >= PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
#elif OBJ == 2
static pthread_cond_t o = PTHREAD_COND_INITIALIZER, ref = PTHREAD_COND_INITIALIZER; static pthread_mutex_t m;
static int expire(pthread_cond_t *c) { struct timespec t = abs_after(-1); int r = pthread_mutex_lock(&m); if (r) return -1; r = pthread_cond_timedwait(c, &m, &t); CHK(pthread_mutex_unlock(&m), 0, "mutex"); return r == ETIMEDOUT ? 0 : r; }
#define USE(x) expire(x)
#define DESTROY pthread_cond_destroy
#define UNLOCK(x) 0
#define GUARD ptw32_cond_test_init_lock
#define UNINIT(x) (x == PTHREAD_COND_INITIALIZER)
#elif OBJ == 3
static pthread_rwlock_t o = PTHREAD_RWLOCK_INITIALIZER, ref = PTHREAD_RWLOCK_INITIALIZER;
#define USE(x) (pthread_rwlock_wrlock(x) || pthread_rwlock_unlock(x))
#define DESTROY pthread_rwlock_destroy
#define UNLOCK pthread_rwlock_unlock
#define GUARD ptw32_rwlock_test_init_lock
#define UNINIT(x) (x == PTHREAD_RWLOCK_INITIALIZER)
#else
static pthread_spinlock_t o = PTHREAD_SPINLOCK_INITIALIZER, ref = PTHREAD_SPINLOCK_INITIALIZER;
#define USE(x) (pthread_spin_lock(x) || pthread_spin_unlock(x))
#define DESTROY pthread_spin_destroy
#define UNLOCK pthread_spin_unlock
#define GUARD ptw32_spinlock_test_init_lock
#define UNINIT(x) (x == PTHREAD_SPINLOCK_INITIALIZER)
#endif
static int excl, shar, gone;
static void __vx_get(int t, int x) { VX_ASSERT(!excl && !(x && shar), "the object came to life twice: two threads hold it"); if (x) excl = t; else shar++; }
static void __vx_put(int t) { if (excl == t) excl = 0; else shar--; }
static void __vx_same(void) { VX_ASSERT(!UNINIT(o) && o, "an object is not initialised after its first use"); for (int k = 0; k < n; k++) VX_ASSERT(handle[k] == (void *)o, "the object came to life twice"); handle[n++] = (void *)o; }
static int held[VX_MAXT], failed[VX_MAXT];
static void enter(int t, int r, int x, int may) {
#ifdef RACE
  if (r == EINVAL) { failed[t] = 1; VX_COVER("!first use refused"); return; }
#endif
  if (r == may && r) { VX_COVER("busy"); __vx_same(); return; } CHK(r, 0, "the first use of a static object fails"); if (x == -2) return; __vx_same(); if (x >= 0) { __vx_get(t, x); held[t] = 1; } }
static void leave(int t) { if (!held[t]) return; held[t] = 0; __vx_put(t); CHK(UNLOCK(&o), 0, "unlock"); }
static struct timespec future;
#define Y __vx_yield();
#define U leave(t);
#if OBJ == 1
#define L enter(t, pthread_mutex_lock(&o), 1, 0);
#define T enter(t, pthread_mutex_trylock(&o), 1, EBUSY);
#define M enter(t, pthread_mutex_timedlock(&o, &future), 1, ETIMEDOUT);
#elif OBJ == 2
#define S enter(t, pthread_cond_signal(&o), -2, 0);
#define W enter(t, expire(&o), -1, 0);
#elif OBJ == 3
#define L enter(t, pthread_rwlock_wrlock(&o), 1, 0);
#define T enter(t, pthread_rwlock_trywrlock(&o), 1, EBUSY);
#define M enter(t, pthread_rwlock_timedwrlock(&o, &future), 1, ETIMEDOUT);
#define R enter(t, pthread_rwlock_rdlock(&o), 0, 0);
#define RT enter(t, pthread_rwlock_tryrdlock(&o), 0, EBUSY);
#define RM enter(t, pthread_rwlock_timedrdlock(&o, &future), 0, ETIMEDOUT);
#else
#define L enter(t, pthread_spin_lock(&o), 1, 0);
#define T enter(t, pthread_spin_trylock(&o), 1, EBUSY);
#endif
/* destroying an object that was never used: nothing to release, and the object is dead; on one that came to life: ordinary rules */
#define D { int r = DESTROY(&o); if (r == 0) { gone = 1; VX_COVER("!destroyed unused"); VX_ASSERT(o == 0, "a destroyed object is not invalidated"); } else { VX_ASSERT(r == EBUSY || r == EINVAL, "destroy result"); VX_COVER("!destroy refused"); } }
#if defined(RACE)
static ptw32_mcs_local_node_t hold;
static int __vx_queued(void) { int k = 0; for (ptw32_mcs_local_node_t *p = (ptw32_mcs_local_node_t *)hold.next; p && k < 4; p = (ptw32_mcs_local_node_t *)p->next) k++; return k >= NT - 1; }
#define H for (;;) { __vx_wait_begin(); __vx_wait_end(__vx_queued()); break; } ptw32_mcs_lock_release(&hold);
#endif
void vx_setup(void) { attach(NT); __vx_set_tid(5); selfs[5] = pthread_self(); future = abs_after(60000);
#if OBJ == 2
  pthread_mutex_init(&m, 0); pthread_mutex_lock(&m); pthread_mutex_unlock(&m);
#endif
#ifdef UNI
  vxw_proc_mask = 1;
#endif
  h1 = vxw_open_handles; a1 = vxw_allocs; CHK(USE(&ref), 0, "using an object"); hd = vxw_open_handles - h1; ad = vxw_allocs - a1; VX_ASSERT(ad > 0, "an object in use owns memory"); CHK(DESTROY(&ref), 0, "destroying an idle object"); CHK(vxw_open_handles, h1, "destroy leaves handles"); CHK(vxw_allocs, a1, "destroy leaves memory");
#ifdef RACE
  __vx_set_tid(NT); ptw32_mcs_lock_acquire(&GUARD, &hold);
#endif
  __vx_set_tid(0); }
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  no_deadlock("threads are blocked in the first use of a static object");
  if (!all_done()) return;
  VX_COVER("!all threads finished"); __vx_set_tid(5);
  if (gone) { CHK(o, 0, "a destroyed object came to life"); CHK(vxw_open_handles, h1, "handles are leaked"); CHK(vxw_allocs, a1, "memory is leaked"); for (int t = 1; t < NT; t++) VX_ASSERT(!held[t], "a destroyed object is held"); __vx_set_tid(0); return; }
  for (int t = 1; t < NT; t++) VX_ASSERT(!failed[t], "a first use fails although the object was not destroyed");
#ifndef NOUSE
  if (n == 0 && UNINIT(o)) { CHK(USE(&o), 0, "first use after signals"); }
  CHK(vxw_open_handles - h1, hd, "the object came to life more than once: handles"); CHK(vxw_allocs - a1, ad, "the object came to life more than once: memory");
#endif
  for (int t = 1; t <= NT; t++) if (held[t]) { __vx_set_tid(t); leave(t); __vx_set_tid(5); }
  CHK(DESTROY(&o), 0, "destroy"); CHK(o, 0, "a destroyed object is not invalidated"); CHK(vxw_open_handles, h1, "handles are leaked"); CHK(vxw_allocs, a1, "memory is leaked"); __vx_set_tid(0); }
