/* C01/C02: scripts of mutex operations per thread against a ghost owner.
   -DS1="L U" -DS2=...  KIND, ROBUST, STATIC, PATIENT */
#include "h.h"
#ifndef KIND
#define KIND PTHREAD_MUTEX_NORMAL
#endif
#ifndef ROBUST
#define ROBUST PTHREAD_MUTEX_STALLED
#endif
#ifndef PATIENT
#define PATIENT 0
#endif
#ifndef PRE
#define PRE
#endif
#ifdef STATIC
static pthread_mutex_t m = STATIC;
#else
static pthread_mutex_t m;
#endif
static int owner, cnt, act, seen[VX_MAXT], got[VX_MAXT];
static void __vx_begin(int t) { seen[t] = act & ~(1 << t); act |= 1 << t; for (int k = 1; k <= NT; k++) if (k != t) seen[k] |= 1 << t; }
static void __vx_idle(int t) { if (owner != t) act &= ~(1 << t); }
static void __vx_acq(int t) {
  VX_ASSERT(owner == 0 || owner == t, "two threads hold the mutex");
  if (KIND != PTHREAD_MUTEX_RECURSIVE) VX_ASSERT(owner == 0, "non-recursive mutex taken twice by its owner");
  owner = t; cnt++; }
static void __vx_rel(int t) { if (--cnt == 0) owner = 0; }
static int __vx_mine(int t) { return owner == t; }
static struct timespec past, future;
static void __vx_got(int t) { got[t]++; }
static void op_lock(int t) { __vx_begin(t); int mine = __vx_mine(t); int r = pthread_mutex_lock(&m);
  if (mine && KIND == PTHREAD_MUTEX_ERRORCHECK) { CHK(r, EDEADLK, "relocking an error-checking mutex must give EDEADLK"); return; }
  CHK(r, 0, "pthread_mutex_lock failed"); __vx_acq(t); __vx_got(t); }
static void op_try(int t) { __vx_begin(t); int mine = __vx_mine(t); int r = pthread_mutex_trylock(&m);
  if (mine && KIND != PTHREAD_MUTEX_RECURSIVE) { CHK(r, EBUSY, "trylock by the owner of a non-recursive mutex must give EBUSY"); return; }
  if (mine) CHK(r, 0, "recursive trylock by the owner must succeed");
  if (r == 0) { __vx_acq(t); __vx_got(t); VX_COVER("trylock succeeded"); } else { CHK(r, EBUSY, "trylock result is neither 0 nor EBUSY"); VX_ASSERT(seen[t], "trylock gives EBUSY although no other thread used the mutex"); __vx_idle(t); } }
static void op_timed(int t, const struct timespec *ts, int mayexpire) { __vx_begin(t); int mine = __vx_mine(t); int r = pthread_mutex_timedlock(&m, ts);
  if (mine && KIND == PTHREAD_MUTEX_ERRORCHECK) { CHK(r, EDEADLK, "timed relocking of an error-checking mutex must give EDEADLK"); return; }
  if (mine) CHK(r, 0, "recursive timedlock by the owner must succeed");
  if (r == 0) { __vx_acq(t); __vx_got(t); } else { CHK(r, ETIMEDOUT, "timedlock result is neither 0 nor ETIMEDOUT"); VX_ASSERT(mayexpire, "timedlock reports ETIMEDOUT before its deadline"); VX_ASSERT(seen[t], "timedlock expires although no other thread used the mutex"); __vx_idle(t); } }
static void op_unlock(int t) { if (!__vx_mine(t)) return; __vx_rel(t); int r = pthread_mutex_unlock(&m); CHK(r, 0, "unlock by the owner failed"); __vx_idle(t); }
/* unlock by a thread that does not hold the mutex (checked kinds) or when nobody holds it */
static void op_wrong(int t) { int r = pthread_mutex_unlock(&m); CHK(r, EPERM, "unlock of a mutex not held by the caller must give EPERM"); }
#define L op_lock(t);
#define T op_try(t);
#define M op_timed(t, &future, !((PATIENT >> t) & 1));
#define P op_timed(t, &past, 1);
#define U op_unlock(t);
#define X op_wrong(t);
#define Y __vx_yield();
void vx_setup(void) {
  past = abs_after(-5); future = abs_after(ABS_FUTURE); vxw_patient = PATIENT;
  attach(NT > 0 ? NT : 1);
#ifndef STATIC
  pthread_mutexattr_t a; CHK(pthread_mutexattr_init(&a), 0, "mutexattr_init");
  CHK(pthread_mutexattr_settype(&a, KIND), 0, "settype"); CHK(pthread_mutexattr_setrobust(&a, ROBUST), 0, "setrobust");
  CHK(pthread_mutex_init(&m, &a), 0, "pthread_mutex_init"); CHK(pthread_mutexattr_destroy(&a), 0, "mutexattr_destroy");
#endif
  { int t = 1; __vx_set_tid(1); PRE __vx_set_tid(0); } }
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  no_deadlock("threads are blocked on the mutex and nobody can wake them");
  if (all_done()) {
    VX_COVER("!all threads finished");
    __vx_set_tid(1); int t = 1;
#ifdef POST
    POST
#endif
    if (owner == 0) { T VX_ASSERT(owner == 1, "free mutex cannot be taken at the end"); U
#ifndef NODESTROY
      CHK(pthread_mutex_destroy(&m), 0, "idle mutex cannot be destroyed");
#endif
    } __vx_set_tid(0); } }
