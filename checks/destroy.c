/* C29. W (sequential): destroy against every state of the object. Otherwise: threads stop using the object while one destroys it.
   ops: ENTER-less: threads hold from the start (setup HELD) or use and drop a reference; the last one destroys (DROP). */
#include "h.h"
#if defined(OBJ) && OBJ == 5
#include "config.h"
#include "implement.h"
#endif
static int h0, a0;
#define OK(e) CHK((e), 0, "the object does not work");
#define BUSY(e) { int b_h = vxw_open_handles, b_a = vxw_allocs; CHK((e), EBUSY, "destroying an object in use is not refused with EBUSY"); CHK(vxw_open_handles, b_h, "a refused destroy releases handles"); CHK(vxw_allocs, b_a, "a refused destroy releases memory"); VX_COVER("!refused"); }
#define GONE(e) { CHK((e), 0, "destroying an idle object fails"); CHK(vxw_open_handles, h0, "destroy leaves handles"); CHK(vxw_allocs, a0, "destroy leaves memory"); VX_COVER("!destroyed"); }
#define INVAL(e) CHK((e), EINVAL, "a call on a destroyed object does not fail with EINVAL");
static int e_(int r) { return r == 0 ? 0 : errno; }
#define AS(t) __vx_set_tid(t);
#ifdef W
static void leave(int t) { AS(t) pthread_win32_thread_detach_np(); h0 -= 2; AS(1) }
static void mark(void) { h0 = vxw_open_handles; a0 = vxw_allocs; }
void vx_setup(void) { attach(3); AS(1) struct timespec ts = abs_after(60); unsigned st; mark();
#if W == 1
  static const int q[] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK }; pthread_mutexattr_t a; pthread_mutex_t m; int kind = q[__vx_nondet("kind") % 3], rob = __vx_nondet("robust") & 1;
  pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, kind); pthread_mutexattr_setrobust(&a, rob ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED); OK(pthread_mutex_init(&m, &a)) pthread_mutexattr_destroy(&a);
  st = __vx_nondet("state") % 6; int n = 1;
  if (st == 1 || st == 2) { AS(st) OK(pthread_mutex_lock(&m)) if (kind == PTHREAD_MUTEX_RECURSIVE && (__vx_nondet("nested") & 1)) { n = 2; OK(pthread_mutex_lock(&m)) } AS(1) BUSY(pthread_mutex_destroy(&m)) BUSY(pthread_mutex_destroy(&m)) AS(3) CHK(pthread_mutex_trylock(&m), EBUSY, "a mutex is released by a refused destroy"); AS(st) if (kind == PTHREAD_MUTEX_RECURSIVE) { OK(pthread_mutex_trylock(&m)) OK(pthread_mutex_unlock(&m)) } else { CHK(pthread_mutex_trylock(&m), EBUSY, "a mutex is released by a refused destroy"); } while (n--) OK(pthread_mutex_unlock(&m)) if (kind != PTHREAD_MUTEX_NORMAL || rob) CHK(pthread_mutex_unlock(&m), EPERM, "a refused destroy leaves the mutex locked"); AS(3) OK(pthread_mutex_lock(&m)) OK(pthread_mutex_unlock(&m)) AS(1) VX_COVER("!held"); }
  if (st == 3) { AS(2) OK(pthread_mutex_lock(&m)) OK(pthread_mutex_unlock(&m)) AS(1) OK(pthread_mutex_trylock(&m)) OK(pthread_mutex_unlock(&m)) }
  if (st == 4 && rob) { AS(2) OK(pthread_mutex_lock(&m)) leave(2); VX_COVER("!owner died"); } /* nobody holds it any more */
  if (st == 5 && rob) { AS(2) OK(pthread_mutex_lock(&m)) leave(2); AS(3) CHK(pthread_mutex_lock(&m), EOWNERDEAD, "lock"); OK(pthread_mutex_unlock(&m)) AS(1) VX_COVER("!not recoverable"); }
  GONE(pthread_mutex_destroy(&m)) INVAL(pthread_mutex_lock(&m)) INVAL(pthread_mutex_trylock(&m)) INVAL(pthread_mutex_timedlock(&m, &ts)) INVAL(pthread_mutex_destroy(&m))
#elif W == 2
  pthread_rwlock_t l; OK(pthread_rwlock_init(&l, 0)) st = __vx_nondet("state") % 5; AS(st & 1 ? 1 : 2)
  if (st == 1 || st == 2) { OK(pthread_rwlock_rdlock(&l)) if (__vx_nondet("two readers") & 1) { AS(3) OK(pthread_rwlock_rdlock(&l)) AS(1) BUSY(pthread_rwlock_destroy(&l)) AS(3) OK(pthread_rwlock_unlock(&l)) } AS(1) BUSY(pthread_rwlock_destroy(&l)) AS(3) CHK(pthread_rwlock_trywrlock(&l), EBUSY, "a refused destroy releases the lock"); AS(st) OK(pthread_rwlock_unlock(&l)) }
  if (st == 3 || st == 4) { OK(pthread_rwlock_wrlock(&l)) AS(1) BUSY(pthread_rwlock_destroy(&l)) AS(3) CHK(pthread_rwlock_trywrlock(&l), EBUSY, "a refused destroy releases the lock"); CHK(pthread_rwlock_tryrdlock(&l), EBUSY, "a refused destroy releases the lock"); AS(st & 1 ? 1 : 2) OK(pthread_rwlock_unlock(&l)) }
  AS(1) if (st) { OK(pthread_rwlock_rdlock(&l)) OK(pthread_rwlock_unlock(&l)) OK(pthread_rwlock_wrlock(&l)) OK(pthread_rwlock_unlock(&l)) }
  GONE(pthread_rwlock_destroy(&l)) INVAL(pthread_rwlock_rdlock(&l)) INVAL(pthread_rwlock_wrlock(&l)) INVAL(pthread_rwlock_tryrdlock(&l)) INVAL(pthread_rwlock_trywrlock(&l)) INVAL(pthread_rwlock_timedrdlock(&l, &ts)) INVAL(pthread_rwlock_timedwrlock(&l, &ts)) INVAL(pthread_rwlock_unlock(&l)) INVAL(pthread_rwlock_destroy(&l))
#elif W == 3
  pthread_spinlock_t s; if (__vx_nondet("one cpu") & 1) vxw_proc_mask = 1; OK(pthread_spin_init(&s, 0)) st = __vx_nondet("state") % 4;
  if (st == 1 || st == 2) { AS(st) OK(pthread_spin_lock(&s)) AS(1) BUSY(pthread_spin_destroy(&s)) AS(3) CHK(pthread_spin_trylock(&s), EBUSY, "a refused destroy releases the lock"); AS(st) OK(pthread_spin_unlock(&s)) AS(1) } if (st) { OK(pthread_spin_trylock(&s)) OK(pthread_spin_unlock(&s)) }
  GONE(pthread_spin_destroy(&s)) INVAL(pthread_spin_lock(&s)) INVAL(pthread_spin_trylock(&s)) INVAL(pthread_spin_unlock(&s)) INVAL(pthread_spin_destroy(&s)) VX_COVER("!refused");
#elif W == 4
  sem_t s; unsigned v = __vx_nondet("value") & 3; OK(e_(sem_init(&s, 0, v))) if (__vx_nondet("used") & 1) { OK(sem_post(&s)) OK(sem_wait(&s)) } GONE(sem_destroy(&s)) VX_COVER("!refused");
#elif W == 5
  pthread_barrier_t b; OK(pthread_barrier_init(&b, 0, 1)) if (__vx_nondet("used") & 1) CHK(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD, "barrier"); GONE(pthread_barrier_destroy(&b)) INVAL(pthread_barrier_wait(&b)) INVAL(pthread_barrier_destroy(&b)) OK(pthread_barrier_init(&b, 0, 2 + (__vx_nondet("height") & 1))) GONE(pthread_barrier_destroy(&b)) INVAL(pthread_barrier_destroy(&b)) INVAL(pthread_barrier_destroy(0)) VX_COVER("!refused");
#elif W == 6 /* several condition variables: the list of them survives every order of destruction */
  pthread_cond_t c[3]; pthread_mutex_t m; int left = 3, dead[3] = { 0, 0, 0 }; OK(pthread_mutex_init(&m, 0)) mark(); for (int i = 0; i < 3; i++) OK(pthread_cond_init(&c[i], 0)) struct timespec past = abs_after(-1);
  for (int i = 0; i < 3; i++) { unsigned k = __vx_nondet("which") % 3; if (dead[k]) { INVAL(pthread_cond_destroy(&c[k])) INVAL(pthread_cond_signal(&c[k])) INVAL(pthread_cond_broadcast(&c[k])) OK(pthread_mutex_lock(&m)) INVAL(pthread_cond_timedwait(&c[k], &m, &past)) INVAL(pthread_cond_wait(&c[k], &m)) OK(pthread_mutex_unlock(&m)) VX_COVER("!twice"); continue; } OK(pthread_mutex_lock(&m)) CHK(pthread_cond_timedwait(&c[k], &m, &past), ETIMEDOUT, "timedwait"); OK(pthread_cond_broadcast(&c[k])) OK(pthread_mutex_unlock(&m)) OK(pthread_cond_destroy(&c[k])) dead[k] = 1; left--; }
  OK(pthread_timechange_handler_np(0) ? 1 : 0)
  for (int i = 0; i < 3; i++) if (!dead[i]) OK(pthread_cond_destroy(&c[i])) CHK(vxw_open_handles, h0, "destroy leaves handles"); CHK(vxw_allocs, a0, "destroy leaves memory"); OK(pthread_cond_init(&c[0], 0)) OK(pthread_cond_destroy(&c[0])) VX_COVER("!refused");
#elif W == 7 /* attribute objects are independent of the objects made with them; static objects never used */
  pthread_mutex_t m; unsigned q = __vx_nondet("static") % 3; m = q == 0 ? PTHREAD_MUTEX_INITIALIZER : q == 1 ? PTHREAD_RECURSIVE_MUTEX_INITIALIZER : PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; GONE(pthread_mutex_destroy(&m)) INVAL(pthread_mutex_lock(&m)) INVAL(pthread_mutex_trylock(&m)) INVAL(pthread_mutex_timedlock(&m, &ts)) INVAL(pthread_mutex_destroy(&m))
  pthread_cond_t c = PTHREAD_COND_INITIALIZER; GONE(pthread_cond_destroy(&c)) INVAL(pthread_cond_destroy(&c)) INVAL(pthread_cond_signal(&c)) pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER; GONE(pthread_rwlock_destroy(&l)) INVAL(pthread_rwlock_rdlock(&l)) INVAL(pthread_rwlock_destroy(&l)) pthread_spinlock_t s = PTHREAD_SPINLOCK_INITIALIZER; GONE(pthread_spin_destroy(&s)) INVAL(pthread_spin_lock(&s)) INVAL(pthread_spin_destroy(&s)) VX_COVER("!refused");
#endif
  VX_COVER("!done"); }
#else
/* OBJ 1 mutex 2 rwlock 3 spin 4 sem 5 barrier 6 cond */
#ifndef REFS
#define REFS NT
#endif
static int ref = REFS, gone, inside[VX_MAXT], released; static int __vx_unref(void) { return --ref; } static void __vx_gone(void) { VX_ASSERT(!gone, "an object is destroyed twice"); for (int k = 1; k <= NT; k++) VX_ASSERT(inside[k] != 2, "an object is destroyed although a thread holds it or is blocked in it"); gone = 1; }
static void __vx_in(int t, int v) { inside[t] = v; }
static int __vx_held(void) { for (int k = 1; k <= NT; k++) if (inside[k] == 2) return 1; return 0; }
#if OBJ == 1
static pthread_mutex_t o;
#ifndef KIND
#define KIND PTHREAD_MUTEX_NORMAL
#endif
#ifndef ROBUST
#define ROBUST PTHREAD_MUTEX_STALLED
#endif
#define INIT { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, KIND); pthread_mutexattr_setrobust(&a, ROBUST); OK(pthread_mutex_init(&o, &a)) pthread_mutexattr_destroy(&a); }
#define LOCK pthread_mutex_lock(&o)
#define RLOCK LOCK
#define UNLOCK pthread_mutex_unlock(&o)
#define DESTROY pthread_mutex_destroy(&o)
#elif OBJ == 2
static pthread_rwlock_t o;
#define INIT OK(pthread_rwlock_init(&o, 0))
#define LOCK pthread_rwlock_wrlock(&o)
#define RLOCK pthread_rwlock_rdlock(&o)
#define UNLOCK pthread_rwlock_unlock(&o)
#define DESTROY pthread_rwlock_destroy(&o)
#elif OBJ == 3
static pthread_spinlock_t o;
#define INIT OK(pthread_spin_init(&o, 0))
#define LOCK pthread_spin_lock(&o)
#define RLOCK LOCK
#define UNLOCK pthread_spin_unlock(&o)
#define DESTROY pthread_spin_destroy(&o)
#elif OBJ == 4
static sem_t o;
#define INIT OK(e_(sem_init(&o, 0, 0)))
#define DESTROY e_(sem_destroy(&o))
#elif OBJ == 5
static pthread_barrier_t o;
#ifndef HEIGHT
#define HEIGHT NT
#endif
#define INIT OK(pthread_barrier_init(&o, 0, HEIGHT))
#define DESTROY pthread_barrier_destroy(&o)
#else
static pthread_cond_t o; static pthread_mutex_t m; static int flag;
#define INIT OK(pthread_mutex_init(&m, 0)) OK(pthread_cond_init(&o, 0))
#define DESTROY pthread_cond_destroy(&o)
#endif
#define L OK(LOCK) __vx_in(t, 2);
#define R OK(RLOCK) __vx_in(t, 2);
#define U { __vx_in(t, 1); OK(UNLOCK) __vx_in(t, 0); }
/* use the object for the last time under its own protection; the last one to do so destroys it */
#define DROP { L int l_ = __vx_unref() == 0; U if (l_) { CHK(DESTROY, 0, "destroying an object nobody uses any more fails"); __vx_gone(); VX_COVER("!last user destroys"); } }
#define RDROP { R int l_ = __vx_unref() == 0; U if (l_) { CHK(DESTROY, 0, "destroying an object nobody uses any more fails"); __vx_gone(); VX_COVER("!last user destroys"); } }
/* try to destroy while others hold it */
#define X if (!gone) { int h_ = __vx_held(), r_ = DESTROY; if (r_ == 0) { __vx_gone(); VX_COVER("destroyed"); } else { CHK(r_, EBUSY, "destroy result"); VX_COVER("refused"); } }
#define G { CHK(DESTROY, 0, "destroying an object nobody uses any more fails"); __vx_gone(); VX_COVER("!destroyed after use"); }
#define P OK(sem_post(&o))
#define PN OK(e_(sem_post_multiple(&o, 2)))
#define WT OK(sem_wait(&o))
#define WD { struct timespec ts = abs_after(60); int r_ = e_(sem_timedwait(&o, &ts)); if (r_) CHK(r_, ETIMEDOUT, "sem_timedwait"); }
#define WG if (__vx_unref() == 0) G
#define BW { int r_ = pthread_barrier_wait(&o); if (r_ == PTHREAD_BARRIER_SERIAL_THREAD) __vx_serial(t); else { CHK(r_, 0, "barrier"); if (serial == t) __vx_serial(0); } }
static int serial; static void __vx_serial(int t) { serial = t; }
#define SG if (serial == t) G
#define CW OK(pthread_mutex_lock(&m)) while (!flag) { OK(pthread_cond_wait(&o, &m)) } OK(pthread_mutex_unlock(&m))
#define CS(f) OK(pthread_mutex_lock(&m)) flag = 1; OK(pthread_cond_##f(&o)) OK(pthread_mutex_unlock(&m))
#define Y __vx_yield();
/* a destroyer that is surely refused, and a holder that stays until then */
static int tried; static void __vx_tried(void) { tried = 1; }
#define XB CHK(DESTROY, EBUSY, "destroying an object in use is not refused with EBUSY"); __vx_tried(); VX_COVER("!refused in use");
#define STAY __vx_wait_begin(); __vx_wait_end(tried);
#define XS { int v_ = 0; OK(sem_getvalue(&o, &v_)) if (v_ < 0) { CHK(DESTROY, EBUSY, "destroying a semaphore with waiters is not refused with EBUSY"); VX_COVER("!refused in use"); } }
#define XBAR if (o->nCurrentBarrierHeight < HEIGHT) { CHK(DESTROY, EBUSY, "destroying a barrier with waiters is not refused with EBUSY"); VX_COVER("!refused in use"); }
#ifndef HELD
#define HELD
#endif
void vx_setup(void) { attach(NT); AS(5) pthread_self(); h0 = vxw_open_handles; a0 = vxw_allocs; INIT { int t; HELD } AS(0) }
TH(1) { int t = 1; S1 }
TH(2) { int t = 2; S2 }
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) { no_deadlock("threads are stranded"); if (!all_done()) return; VX_COVER("!done"); AS(5)
  if (!gone) { for (int k = 1; k <= NT; k++) VX_ASSERT(!inside[k], "held"); CHK(DESTROY, 0, "destroying an idle object fails"); }
#if OBJ == 6
  CHK(pthread_mutex_destroy(&m), 0, "mutex");
#endif
  CHK(vxw_open_handles, h0, "handles are left"); CHK(vxw_allocs, a0, "memory is left"); AS(0) }
#endif
