/* C03: robust mutex hand-over when the owner terminates. */
#include "h.h"
#ifndef KIND
#define KIND PTHREAD_MUTEX_NORMAL
#endif
#ifndef PATIENT
#define PATIENT 0
#endif
static pthread_mutex_t m;
enum { CONS, DEAD, INCONS, NOTREC };
static int owner, cnt, state, act, seen[VX_MAXT], deaths, inherits;
static struct timespec future;
static void __vx_begin(int t) { seen[t] = act & ~(1 << t); act |= 1 << t; for (int k = 1; k <= NT; k++) if (k != t) seen[k] |= 1 << t; }
static void __vx_result(int t, int r) {
  if (r == 0) {
    VX_ASSERT(owner == 0 || owner == t, "lock returned 0 while another thread holds the robust mutex");
    VX_ASSERT(state != DEAD, "lock returned 0 although the previous owner died holding the mutex");
    VX_ASSERT(state != NOTREC, "lock returned 0 on a mutex that is not recoverable");
    VX_ASSERT(owner == t || state != INCONS, "lock returned 0 although the state is inconsistent");
    owner = t; cnt++;
  } else if (r == EOWNERDEAD) {
    VX_ASSERT(state == DEAD, "EOWNERDEAD although no owner died holding the mutex, or reported twice");
    state = INCONS; owner = t; cnt = 1; inherits++;
  } else if (r == ENOTRECOVERABLE) VX_ASSERT(state == NOTREC, "ENOTRECOVERABLE although the mutex is recoverable");
  if (owner != t) act &= ~(1 << t); }
static int __vx_mine(int t) { return owner == t; }
static void __vx_rel(int t) { if (--cnt == 0) { owner = 0; if (state == INCONS) state = NOTREC; } }
static void __vx_idle(int t) { if (owner != t) act &= ~(1 << t); }
static void __vx_die(int t) { if (owner == t) { owner = 0; cnt = 0; state = DEAD; deaths++; } }
static int __vx_st(void) { return state; }
static void __vx_setst(int s) { state = s; }
static void op_lock(int t) { __vx_begin(t); int r = pthread_mutex_lock(&m);
  VX_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE, "unexpected result of pthread_mutex_lock on a robust mutex"); if (r == EOWNERDEAD) VX_COVER("inherited"); __vx_result(t, r); }
static void op_try(int t) { __vx_begin(t); int r = pthread_mutex_trylock(&m);
  VX_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE || r == EBUSY, "unexpected result of pthread_mutex_trylock on a robust mutex");
  if (r == EBUSY) VX_ASSERT(seen[t], "EBUSY although nobody used the mutex"); __vx_result(t, r); }
static void op_timed(int t) { __vx_begin(t); int r = pthread_mutex_timedlock(&m, &future);
  VX_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE || r == ETIMEDOUT, "unexpected result of pthread_mutex_timedlock on a robust mutex");
  if (r == ETIMEDOUT) VX_ASSERT(!((PATIENT >> t) & 1) && seen[t], "ETIMEDOUT without cause"); __vx_result(t, r); }
static void op_unlock(int t) { if (!__vx_mine(t)) return; __vx_rel(t); CHK(pthread_mutex_unlock(&m), 0, "unlock by the owner failed"); __vx_idle(t); }
static void op_cons(int t) { if (!__vx_mine(t)) return; int want = __vx_st() == INCONS ? 0 : EINVAL; CHK(pthread_mutex_consistent(&m), want, "pthread_mutex_consistent by the owner gives the wrong result"); if (want == 0) __vx_setst(CONS); }
static void op_die(int t) { __vx_die(t); pthread_win32_thread_detach_np(); __vx_idle(t); }
static void op_exit(int t) { __vx_die(t); __vx_idle(t); pthread_exit(0); }
#define L op_lock(t);
#define T op_try(t);
#define M op_timed(t);
#define U op_unlock(t);
#define C op_cons(t);
#define D op_die(t);
#define E op_exit(t);
#define Y __vx_yield();
void vx_setup(void) {
  future = abs_after(ABS_FUTURE); vxw_patient = PATIENT; attach(NT + 0);
  { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); }
  pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, KIND); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
  CHK(pthread_mutex_init(&m, &a), 0, "pthread_mutex_init"); pthread_mutexattr_destroy(&a);
#ifdef PREDEAD
  __vx_set_tid(5); op_lock(5); op_die(5); selfs[5] = pthread_self(); __vx_set_tid(0);
#endif
}
TH(1) { int t = 1; S1 }
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
void vx_final(void) {
  no_deadlock("threads are blocked on the robust mutex and nobody can wake them");
  if (all_done()) {
    VX_COVER("!all threads finished");
    __vx_set_tid(5); int t = 5;
    if (state == NOTREC) VX_COVER("not recoverable"); if (deaths) VX_COVER("owner died");
    VX_ASSERT(inherits <= deaths, "more inheritors than deaths");
    if (owner == 0 && state == CONS) { CHK(pthread_mutex_trylock(&m), 0, "consistent free mutex cannot be taken"); CHK(pthread_mutex_unlock(&m), 0, "unlock"); CHK(pthread_mutex_destroy(&m), 0, "destroy of an idle robust mutex failed"); }
    else if (owner == 0 && state == DEAD) { CHK(pthread_mutex_lock(&m), EOWNERDEAD, "mutex of a dead owner must be inherited"); CHK(pthread_mutex_consistent(&m), 0, "consistent"); CHK(pthread_mutex_unlock(&m), 0, "unlock"); CHK(pthread_mutex_trylock(&m), 0, "recovered mutex cannot be taken"); CHK(pthread_mutex_unlock(&m), 0, "unlock"); }
    else if (owner == 0 && state == NOTREC) { CHK(pthread_mutex_lock(&m), ENOTRECOVERABLE, "lock of an unrecoverable mutex"); CHK(pthread_mutex_trylock(&m), ENOTRECOVERABLE, "trylock of an unrecoverable mutex"); CHK(pthread_mutex_timedlock(&m, &future), ENOTRECOVERABLE, "timedlock of an unrecoverable mutex"); CHK(pthread_mutex_consistent(&m), EINVAL, "consistent on an unrecoverable mutex"); }
    __vx_set_tid(0); } }
