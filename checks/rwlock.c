/* C09/C10: scripts of read-write lock operations against ghost holders.
   ops: R rdlock, W wrlock, T tryrdlock, V trywrlock, D timedrdlock, E timedwrlock (future), Q/P timed rd/wr (past), U unlock, K(k) cancel, X destroy (expects refusal while held), Y yield */
#ifdef HIST
#include "config.h"
#include "pthread.h"
#include "implement.h"
#endif
#include "h.h"
#ifndef PATIENT
#define PATIENT 0
#endif
#ifndef WEAKTRY
#define WEAKTRY 0
#endif
#ifdef STATIC
static pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER;
#else
static pthread_rwlock_t l;
#endif
static struct timespec past, future;
static int readers, writer, hold[VX_MAXT], act, seen[VX_MAXT], wwait[VX_MAXT], inop[VX_MAXT], destroyed;
static void __vx_begin(int t) { inop[t] = 1; seen[t] = act & ~(1 << t); act |= 1 << t; for (int k = 1; k <= NT; k++) if (k != t) seen[k] |= 1 << t; }
static void __vx_idle(int t) { inop[t] = 0; if (!hold[t]) act &= ~(1 << t); }
static void __vx_acqr(int t) { inop[t] = 0; VX_ASSERT(writer == 0, "a reader holds the lock together with a writer"); readers++; hold[t]++; if (readers > 1) VX_COVER("readers share"); }
static void __vx_acqw(int t) { inop[t] = 0; VX_ASSERT(writer == 0, "two writers hold the lock"); VX_ASSERT(readers == 0, "a writer holds the lock together with readers"); writer = t; hold[t] = -1; }
static int __vx_rel(int t) { int h = hold[t]; if (h > 0) { readers--; hold[t]--; } if (h < 0) { writer = 0; hold[t] = 0; } if (h) { inop[t] = 1; } return h; }
static void onc(void *a) { int t = (int)(long long)a; VX_COVER("lock wait cancelled"); __vx_idle(t); }
static void op(int t, int wr, int kind) { int r; __vx_begin(t);
  pthread_cleanup_push(onc, (void *)(long long)t);
  switch (wr * 4 + kind) {
    case 0: r = pthread_rwlock_rdlock(&l); break; case 1: r = pthread_rwlock_tryrdlock(&l); break; case 2: r = pthread_rwlock_timedrdlock(&l, &future); break; case 3: r = pthread_rwlock_timedrdlock(&l, &past); break;
    case 4: r = pthread_rwlock_wrlock(&l); break; case 5: r = pthread_rwlock_trywrlock(&l); break; case 6: r = pthread_rwlock_timedwrlock(&l, &future); break; default: r = pthread_rwlock_timedwrlock(&l, &past); break; }
  pthread_cleanup_pop(0);
  if (r == 0) { if (wr) __vx_acqw(t); else __vx_acqr(t); if (kind) VX_COVER("try or timed lock succeeded"); return; }
  VX_ASSERT(kind != 0, "blocking lock failed");
  VX_ASSERT(r == (kind == 1 ? EBUSY : ETIMEDOUT), "lock attempt failed with an undocumented result");
  VX_ASSERT(kind != 2 || !((PATIENT >> t) & 1), "timed lock expired before its deadline");
  VX_ASSERT(seen[t] || hold[t] < 0 || (wr && hold[t]), "lock attempt fails although no other thread used the lock");
  __vx_idle(t); VX_COVER("try or timed lock refused"); }
static void op_unlock(int t) { if (!__vx_rel(t)) return; int r = pthread_rwlock_unlock(&l); CHK(r, 0, "unlock failed"); __vx_idle(t); }
static void op_destroy(int t) { int h = hold[t]; int r = pthread_rwlock_destroy(&l); if (h) CHK(r, EBUSY, "destroy of a held lock must give EBUSY"); else VX_ASSERT(r == 0 || r == EBUSY, "destroy result"); }
#define R op(t, 0, 0);
#define T op(t, 0, 1);
#define D op(t, 0, 2);
#define Q op(t, 0, 3);
#define W op(t, 1, 0);
#define V op(t, 1, 1);
#define E op(t, 1, 2);
#define P op(t, 1, 3);
#define U op_unlock(t);
#define X op_destroy(t);
#define K(k) { int r = pthread_cancel(selfs[k]); VX_ASSERT(r == 0 || r == ESRCH, "pthread_cancel result"); }
#define Y __vx_yield();
void vx_setup(void) { past = abs_after(-5); future = abs_after(ABS_FUTURE); vxw_patient = PATIENT; attach(NT);
  { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); }
#ifndef STATIC
  CHK(pthread_rwlock_init(&l, 0), 0, "rwlock_init");
#endif
#ifdef HIST /* any number of read locks were taken and released before: the state they leave behind */
  { int k = (int)__vx_nondet("readers before"); VX_ASSUME(k >= 0 && k < INT_MAX); l->nSharedAccessCount = l->nCompletedSharedAccessCount = k; }
#endif
}
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  no_deadlock("threads are blocked on the lock and nobody can wake them");
  if (all_done()) { int h = 0; VX_COVER("!all threads finished");
    __vx_set_tid(5);
    for (int t = 1; t <= NT; t++) h |= hold[t] != 0;
    if (h) { CHK(pthread_rwlock_destroy(&l), EBUSY, "destroy of a held lock must give EBUSY"); CHK(pthread_rwlock_trywrlock(&l), EBUSY, "trywrlock on a held lock"); 
      int r = pthread_rwlock_tryrdlock(&l); CHK(r, writer ? EBUSY : 0, "tryrdlock gives the wrong answer on a held lock"); }
    else { int t = 5; op(5, 0, 1); VX_ASSERT(hold[5] == 1, "free lock cannot be read-locked"); op_unlock(5); op(5, 1, 1); VX_ASSERT(hold[5] < 0, "free lock cannot be write-locked");
      CHK(pthread_rwlock_tryrdlock(&l), EBUSY, "read lock granted while write-locked"); CHK(pthread_rwlock_trywrlock(&l), EBUSY, "write lock granted twice"); CHK(pthread_rwlock_destroy(&l), EBUSY, "destroy of a write-locked lock must give EBUSY"); op_unlock(5);
      CHK(pthread_rwlock_destroy(&l), 0, "destroy of a free lock failed"); CHK(pthread_rwlock_rdlock(&l), EINVAL, "destroyed lock is not rejected"); CHK(pthread_rwlock_destroy(&l), EINVAL, "destroying twice must give EINVAL"); }
    __vx_set_tid(0); } }
