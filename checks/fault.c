/* C27: failing allocations and system calls are reported cleanly. CASE(init, use, fini, expected errors) */
#include "h.h"
#ifndef ALLOCF
#define ALLOCF NF
#define OBJF NF
#define SEMF NF
#define TLSF NF
#define THRF NF
#endif
static int h0, a0;
static void budgets(int on) { vxw_alloc_fail_budget = on ? ALLOCF : 0; vxw_obj_fail_budget = on ? OBJF : 0; vxw_sem_fail_budget = on ? SEMF : 0; vxw_tls_fail_budget = on ? TLSF : 0; vxw_thread_fail_budget = on ? THRF : 0; }
static void *other(void *a) { return a; }
static int isres(int e) { return e == ENOMEM || e == ENOSPC || e == EAGAIN; }
static pthread_mutex_t m; static pthread_cond_t c; static pthread_rwlock_t rw; static pthread_barrier_t b; static pthread_spinlock_t sp; static sem_t s; static pthread_key_t k; static pthread_attr_t at; static pthread_mutexattr_t ma; static pthread_condattr_t ca; static pthread_rwlockattr_t ra; static pthread_barrierattr_t ba; static pthread_once_t on = PTHREAD_ONCE_INIT; static int runs; static void routine(void) { runs++; }
static void dtor(void *v) { }
#define TRY(e) { h0 = vxw_open_handles; a0 = vxw_allocs; budgets(1); int r = (e); budgets(0); \
  if (r) { VX_ASSERT(isres(r), "a call that fails for lack of resources reports another error"); CHK(vxw_open_handles, h0, "a failing call leaks handles"); CHK(vxw_allocs, a0, "a failing call leaks memory"); VX_COVER("!failed"); CHK((e), 0, "a call that failed does not succeed when resources are back"); } else VX_COVER("!succeeded"); }
#define OK(e) CHK((e), 0, "the object does not work after a failure");
#define END CHK(vxw_open_handles, h0, "handles are leaked or lost"); CHK(vxw_allocs, a0, "memory is leaked or lost"); VX_COVER("!done");
static int e_(int r) { return r == 0 ? 0 : errno; }
static int kinds(void) { static const int q[] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK }; return q[__vx_nondet("kind") % 3]; }
static void usem(void) { OK(pthread_mutex_lock(&m)) OK(pthread_mutex_unlock(&m)) OK(pthread_mutex_trylock(&m)) OK(pthread_mutex_unlock(&m)) OK(pthread_mutex_destroy(&m)) }
static void usecond(void) { struct timespec t = abs_after(1); OK(pthread_cond_signal(&c)) OK(pthread_cond_broadcast(&c)) OK(pthread_mutex_lock(&m)) CHK(pthread_cond_timedwait(&c, &m, &t), ETIMEDOUT, "timedwait"); OK(pthread_mutex_unlock(&m)) OK(pthread_cond_destroy(&c)) }
static void userw(void) { OK(pthread_rwlock_rdlock(&rw)) OK(pthread_rwlock_unlock(&rw)) OK(pthread_rwlock_wrlock(&rw)) OK(pthread_rwlock_unlock(&rw)) OK(pthread_rwlock_destroy(&rw)) }
static void usesp(void) { OK(pthread_spin_lock(&sp)) CHK(pthread_spin_trylock(&sp), EBUSY, "spin_trylock"); OK(pthread_spin_unlock(&sp)) OK(pthread_spin_destroy(&sp)) }
static void cases(void) {
#if W == 1
  pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, kinds()); pthread_mutexattr_setrobust(&ma, __vx_nondet("robust") & 1 ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED); TRY(pthread_mutex_init(&m, __vx_nondet("attr") & 1 ? &ma : 0)) usem(); END
#elif W == 2
  unsigned q = __vx_nondet("static") % 3; m = q == 0 ? PTHREAD_MUTEX_INITIALIZER : q == 1 ? PTHREAD_RECURSIVE_MUTEX_INITIALIZER : PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; struct timespec t = abs_after(1); unsigned o = __vx_nondet("op") % 3; TRY(o == 0 ? pthread_mutex_lock(&m) : o == 1 ? pthread_mutex_trylock(&m) : pthread_mutex_timedlock(&m, &t)) OK(pthread_mutex_unlock(&m)) usem(); END
#elif W == 3
  pthread_mutex_init(&m, 0); TRY(pthread_cond_init(&c, 0)) usecond(); END
#elif W == 4
  pthread_mutex_init(&m, 0); c = PTHREAD_COND_INITIALIZER; struct timespec t = abs_after(1); int r; pthread_mutex_lock(&m); h0 = vxw_open_handles; a0 = vxw_allocs; budgets(1); r = pthread_cond_timedwait(&c, &m, &t); budgets(0);
  if (r != ETIMEDOUT) { VX_ASSERT(isres(r), "a call that fails for lack of resources reports another error"); CHK(vxw_open_handles, h0, "a failing call leaks handles"); CHK(vxw_allocs, a0, "a failing call leaks memory"); VX_COVER("!failed"); CHK(pthread_cond_timedwait(&c, &m, &t), ETIMEDOUT, "a call that failed does not succeed when resources are back"); } else VX_COVER("!succeeded"); OK(pthread_mutex_unlock(&m)) usecond(); END
#elif W == 5
  TRY(pthread_rwlock_init(&rw, 0)) userw(); END
#elif W == 6
  rw = PTHREAD_RWLOCK_INITIALIZER; struct timespec t = abs_after(1); unsigned o = __vx_nondet("op") % 6; TRY(o == 0 ? pthread_rwlock_rdlock(&rw) : o == 1 ? pthread_rwlock_wrlock(&rw) : o == 2 ? pthread_rwlock_tryrdlock(&rw) : o == 3 ? pthread_rwlock_trywrlock(&rw) : o == 4 ? pthread_rwlock_timedrdlock(&rw, &t) : pthread_rwlock_timedwrlock(&rw, &t)) OK(pthread_rwlock_unlock(&rw)) userw(); END
#elif W == 7
  if (__vx_nondet("one cpu") & 1) vxw_proc_mask = 1; TRY(pthread_spin_init(&sp, 0)) usesp(); END
#elif W == 8
  if (__vx_nondet("one cpu") & 1) vxw_proc_mask = 1; sp = PTHREAD_SPINLOCK_INITIALIZER; if (__vx_nondet("op") & 1) TRY(pthread_spin_lock(&sp)) else TRY(pthread_spin_trylock(&sp)) OK(pthread_spin_unlock(&sp)) usesp(); END
#elif W == 9
  TRY(e_(sem_init(&s, 0, 1))) OK(sem_wait(&s)) OK(sem_post(&s)) OK(sem_trywait(&s)) OK(sem_post(&s)) OK(sem_destroy(&s)) END
#elif W == 10
  TRY(pthread_barrier_init(&b, 0, 1)) CHK(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD, "barrier_wait"); OK(pthread_barrier_destroy(&b)) END
#elif W == 11
  TRY(pthread_key_create(&k, __vx_nondet("destructor") & 1 ? dtor : 0)) OK(pthread_setspecific(k, (void *)1)) CHK(pthread_getspecific(k), (void *)1, "getspecific"); OK(pthread_key_delete(k)) END
#elif W == 12
  pthread_key_create(&k, dtor); TRY(pthread_setspecific(k, (void *)1)) CHK(pthread_getspecific(k), (void *)1, "getspecific"); OK(pthread_setspecific(k, (void *)2)) CHK(pthread_getspecific(k), (void *)2, "getspecific"); a0 -= 1; pthread_key_delete(k); END
#elif W == 13
  TRY(pthread_attr_init(&at)) OK(pthread_attr_destroy(&at)) END TRY(pthread_mutexattr_init(&ma)) OK(pthread_mutexattr_destroy(&ma)) TRY(pthread_condattr_init(&ca)) OK(pthread_condattr_destroy(&ca)) TRY(pthread_rwlockattr_init(&ra)) OK(pthread_rwlockattr_destroy(&ra)) TRY(pthread_barrierattr_init(&ba)) OK(pthread_barrierattr_destroy(&ba)) END
#elif W == 14
  pthread_attr_init(&at); char q[4]; TRY(pthread_attr_setname_np(&at, "a")) OK(pthread_attr_getname_np(&at, q, 4)) CHK(q[0], 'a', "name"); TRY(pthread_attr_setname_np(&at, "b")) OK(pthread_attr_getname_np(&at, q, 4)) CHK(q[0], 'b', "name"); OK(pthread_attr_destroy(&at)) a0 -= 2; END
#elif W == 15
  char q[4]; OK(pthread_setname_np(pthread_self(), "a")) TRY(pthread_setname_np(pthread_self(), "b")) OK(pthread_getname_np(pthread_self(), q, 4)) CHK(q[0], 'b', "name"); VX_COVER("!done");
#elif W == 16 /* a failing setname keeps the old name */
  char q[4]; OK(pthread_setname_np(pthread_self(), "a")) budgets(1); int r = pthread_setname_np(pthread_self(), "b"); budgets(0); OK(pthread_getname_np(pthread_self(), q, 4)) CHK(q[0], r ? 'a' : 'b', "a failing pthread_setname_np changed the name"); if (r) { VX_ASSERT(isres(r), "error"); VX_COVER("!failed"); } OK(pthread_attr_init(&at)) OK(pthread_attr_setname_np(&at, "a")) budgets(1); r = pthread_attr_setname_np(&at, "b"); budgets(0); OK(pthread_attr_getname_np(&at, q, 4)) CHK(q[0], r ? 'a' : 'b', "a failing pthread_attr_setname_np changed the name"); VX_COVER("!done");
#elif W == 17
  TRY(pthread_once(&on, routine)) OK(pthread_once(&on, routine)) CHK(runs, 1, "the routine runs once"); VX_COVER("!done");
#elif W == 18 /* failing first use leaves the other objects alone */
  pthread_mutex_t n = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_init(&m, 0); OK(pthread_mutex_lock(&m)) h0 = vxw_open_handles; a0 = vxw_allocs; budgets(1); int r = pthread_mutex_lock(&n); budgets(0); if (r) VX_COVER("!failed"); else { OK(pthread_mutex_unlock(&n)) } CHK(pthread_mutex_destroy(&n), 0, "destroy after a failed first use"); CHK(pthread_mutex_trylock(&m), EBUSY, "another mutex was disturbed"); END OK(pthread_mutex_unlock(&m)) usem();
#elif W == 19 /* sem_open and friends are not supported; condition variable of a key: nothing else allocates */
  OK(pthread_mutex_init(&m, 0)) OK(pthread_cond_init(&c, 0)) OK(pthread_rwlock_init(&rw, 0)) OK(e_(sem_init(&s, 0, 1))) OK(pthread_barrier_init(&b, 0, 1)) budgets(1); struct timespec t = abs_after(1);
  OK(pthread_mutex_lock(&m)) CHK(pthread_cond_timedwait(&c, &m, &t), ETIMEDOUT, "a wait on an initialised object needs no resources"); OK(pthread_cond_signal(&c)) OK(pthread_mutex_unlock(&m)) OK(sem_wait(&s)) OK(sem_post(&s)) OK(pthread_rwlock_rdlock(&rw)) OK(pthread_rwlock_unlock(&rw)) OK(pthread_rwlock_wrlock(&rw)) OK(pthread_rwlock_unlock(&rw)) CHK(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD, "barrier"); VX_COVER("!done");
#endif
}
#if defined(SELF) /* creating an identity, starting the library */
void vx_setup(void) { __vx_set_tid(1);
#ifdef BOOT
  h0 = vxw_open_handles; a0 = vxw_allocs; budgets(1); int r = pthread_win32_process_attach_np(); pthread_t p; 
  if (!r) { CHK(vxw_open_handles, h0, "a failing start of the library leaks handles"); CHK(vxw_allocs, a0, "a failing start of the library leaks memory"); VX_COVER("!failed"); p = pthread_self(); if (p.p) VX_COVER("started late"); budgets(0); CHK(!!pthread_win32_process_attach_np(), 1, "the library does not start when resources are back"); p = pthread_self(); VX_ASSERT(p.p != 0, "no identity when resources are back"); }
  else { budgets(0); p = pthread_self(); VX_ASSERT(p.p != 0, "no identity although the library has started"); } pthread_win32_process_detach_np(); CHK(vxw_open_handles, h0, "the library leaves handles behind"); CHK(vxw_allocs, a0, "the library leaves memory behind"); VX_COVER("!done");
#else
  pthread_win32_process_attach_np(); __vx_set_tid(2); pthread_self(); pthread_win32_thread_detach_np(); __vx_set_tid(1); h0 = vxw_open_handles; a0 = vxw_allocs; if (__vx_nondet("affinity fails") & 1) vxw_procaff_fail = 1;
#ifdef FRESH
  pthread_t q[1]; __vx_set_tid(3); q[0] = pthread_self(); __vx_set_tid(1); h0 = vxw_open_handles; 
#endif
  budgets(1); pthread_t p = pthread_self(); budgets(0); vxw_procaff_fail = 0;
  if (!p.p) { CHK(vxw_open_handles, h0, "pthread_self leaks handles when it fails"); VX_COVER("!failed"); 
#ifndef FRESH
    CHK(vxw_allocs, a0, "pthread_self leaks memory when it fails");
#endif
    p = pthread_self(); VX_ASSERT(p.p != 0, "no identity when resources are back"); } CHK(pthread_kill(p, 0), 0, "identity"); VX_ASSERT(pthread_equal(p, pthread_self()), "identity"); OK(pthread_mutex_init(&m, 0)) usem(); pthread_win32_thread_detach_np(); CHK(vxw_open_handles, h0, "handles are leaked or lost"); VX_COVER("!done");
#endif
}
#else
void vx_setup(void) { attach(1); __vx_set_tid(1); cases(); }
#endif
