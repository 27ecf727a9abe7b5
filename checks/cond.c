/* C06/C07: scripts of condition-variable operations; ghost: which threads wait (set with the mutex held),
   how many of the eligible waiters signals and broadcasts still owe a return.
   ops: W wait, D timedwait (future), Z timedwait (past), S/B signal/broadcast holding the mutex,
   N/A signal/broadcast after releasing it, K(k) cancel, X destroy, Y yield */
#ifdef HIST
#include "config.h"
#include "pthread.h"
#include "implement.h"
#endif
#include "h.h"
#ifndef PATIENT
#define PATIENT 0
#endif
#ifndef EXPIRES
#define EXPIRES 0
#endif
#ifdef STATIC
static pthread_cond_t c = PTHREAD_COND_INITIALIZER; static pthread_mutex_t m = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER;
#else
static pthread_cond_t c; static pthread_mutex_t m;
#endif
static struct timespec past, future;
static int owner, waiting[VX_MAXT], elig[VX_MAXT], seq[VX_MAXT], snap[VX_MAXT][VX_MAXT], owed, sigopen, nsig, gone, destroyed, infirst[VX_MAXT], bcast_open;
static int __vx_nel(void) { int n = 0; for (int k = 1; k <= NT; k++) n += waiting[k] && elig[k]; return n; }
static void __vx_acq(int t) { VX_ASSERT(owner == 0, "two threads hold the mutex of the condition variable"); owner = t; }
static void __vx_rel(int t) { owner = 0; }
static void __vx_wbeg(int t) { waiting[t] = 1; seq[t]++; elig[t] = sigopen > 0; owner = 0; }
static int __vx_gone(int t) { return destroyed; }
static void __vx_wret(int t, int woken) { __vx_acq(t); int e = elig[t]; waiting[t] = 0; elig[t] = 0;
  if (e && woken && owed > 0) owed--;
  int n = __vx_nel(); if (owed > n) owed = n; }
/* a signal takes effect for the threads waiting now (locked) or still in the wait seen before the unlock */
static void __vx_snap(int t) { for (int k = 1; k <= NT; k++) snap[t][k] = waiting[k] ? seq[k] : 0; }
static void __vx_sig(int t, int all) { int n = 0; nsig++; sigopen++;
  for (int k = 1; k <= NT; k++) if (waiting[k] && snap[t][k] == seq[k]) { elig[k] = 1; n++; }
  if (n) { int e = __vx_nel(); owed = all ? (owed > n ? owed : n) : owed + 1; if (owed > e) owed = e; } }
static void __vx_sigend(int t) { sigopen--; }
static void onc(void *a) { int t = (int)(long long)a; __vx_wret(t, 0); VX_COVER("wait cancelled");
  __vx_rel(t); CHK(pthread_mutex_unlock(&m), 0, "cleanup handler of a cancelled wait does not hold the mutex"); }
#ifdef ROBM /* the mutex is robust and op E dies holding it: the first one to hold it afterwards must be told */
static int dead; static void __vx_die(void) { dead = 1; owner = 0; } static void __vx_heir(void) { dead = 2; }
static void heir(int r) { CHK(r, EOWNERDEAD, "the mutex of a dead owner is obtained without EOWNERDEAD"); __vx_heir(); VX_COVER("inherited"); CHK(pthread_mutex_consistent(&m), 0, "the heir cannot make the mutex consistent"); }
#endif
static void lock(int t) { int r = pthread_mutex_lock(&m); __vx_acq(t);
#ifdef ROBM
  if (dead == 1) { heir(r); return; }
#endif
  CHK(r, 0, "mutex lock"); }
static void unlock(int t) { __vx_rel(t); CHK(pthread_mutex_unlock(&m), 0, "the caller of a condition wait does not hold the mutex when it returns"); }
static void op_wait(int t, int kind) {
  int r; lock(t);
  if (__vx_gone(t)) { CHK(pthread_cond_wait(&c, &m), EINVAL, "wait on a destroyed condition variable must give EINVAL"); unlock(t); return; }
  __vx_wbeg(t);
  pthread_cleanup_push(onc, (void *)(long long)t);
  r = kind == 0 ? pthread_cond_wait(&c, &m) : pthread_cond_timedwait(&c, &m, kind == 1 ? &future : &past);
  pthread_cleanup_pop(0);
#ifdef ROBM
  if (dead == 1) { __vx_wret(t, 1); VX_COVER("!heir is a waiter"); heir(r); unlock(t); return; }
#endif
  if (r != 0) { CHK(r, ETIMEDOUT, "condition wait result is neither 0 nor ETIMEDOUT"); VX_ASSERT(kind == 2 || (kind == 1 && !((PATIENT >> t) & 1)), "condition wait expired before its deadline"); VX_COVER("wait expired"); }
  else VX_COVER("!wait released");
  __vx_wret(t, r == 0); unlock(t); }
static void op_sig(int t, int all, int locked) {
  int r; lock(t); __vx_snap(t);
  if (!locked) unlock(t);
  __vx_sig(t, all);
  r = all ? pthread_cond_broadcast(&c) : pthread_cond_signal(&c);
  if (!destroyed) CHK(r, 0, "signal or broadcast failed");
  __vx_sigend(t);
  if (locked) unlock(t); }
static int __vx_surewait(void) { if (nsig) return 0; for (int k = 1; k <= NT; k++) if (waiting[k] && infirst[k]) return 1; return 0; }
static void op_destroy(int t) { lock(t); int sure = 0, any = 0; for (int k = 1; k <= NT; k++) any |= waiting[k]; sure = any && nsig == 0 && !EXPIRES; 
  if (__vx_gone(t)) { CHK(pthread_cond_destroy(&c), EINVAL, "destroying twice must give EINVAL"); unlock(t); return; }
  int r = pthread_cond_destroy(&c);
  if (r == 0) { VX_ASSERT(!sure, "destroy succeeds although a thread waits"); destroyed = 1; VX_COVER("destroyed"); VX_ASSERT(c == 0, "destroyed condition variable is not invalidated"); }
  else { CHK(r, EBUSY, "destroy result is neither 0 nor EBUSY"); VX_ASSERT(any, "destroy gives EBUSY although nobody waits"); VX_COVER("destroy refused"); }
  unlock(t); }
#define W op_wait(t, 0);
#define D op_wait(t, 1);
#define Z op_wait(t, 2);
#define S op_sig(t, 0, 1);
#define B op_sig(t, 1, 1);
#define N op_sig(t, 0, 0);
#define A op_sig(t, 1, 0);
#define X op_destroy(t);
#define K(k) { int r = pthread_cancel(selfs[k]); VX_ASSERT(r == 0 || r == ESRCH, "pthread_cancel result"); }
#define Y __vx_yield();
#define E { lock(t); __vx_snap(t); __vx_sig(t, 0); CHK(pthread_cond_signal(&c), 0, "signal failed"); __vx_sigend(t); __vx_die(); pthread_win32_thread_detach_np(); }
void vx_setup(void) { past = abs_after(-5); future = abs_after(ABS_FUTURE); vxw_patient = PATIENT; attach(NT);
  { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); }
#ifndef STATIC
  CHK(pthread_cond_init(&c, 0), 0, "cond_init"); pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK);
#ifdef ROBM
  pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
#endif
  CHK(pthread_mutex_init(&m, &a), 0, "mutex_init"); pthread_mutexattr_destroy(&a);
#endif
#ifdef HIST /* any number of waits expired or were cancelled unsignalled before: the state they leave behind */
  { int k = (int)__vx_nondet("abandoned waits"); VX_ASSUME(k >= 0 && k < INT_MAX / 2); c->nWaitersBlocked = c->nWaitersGone = k; }
#endif
#ifdef PRE
  __vx_set_tid(5); for (int k = 0; k < PRE; k++) op_wait(5, 2); __vx_set_tid(0);
#endif
}
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  int quiet = 1, blocked = 0;
  for (int t = 1; t <= NT; t++) if (!__vx_done(t)) { if (!__vx_stuck(t)) quiet = 0; else blocked++; }
  if (!quiet) return;
  for (int t = 1; t <= NT; t++) VX_ASSERT(__vx_done(t) || waiting[t], "a thread is blocked outside a condition wait");
  for (int t = 1; t <= NT; t++) if (!__vx_done(t)) VX_ASSERT(!(owed > 0 && elig[t]), "a signal or broadcast sent while threads were blocked released too few of them");
  VX_COVER("!all threads finished or blocked"); if (blocked) VX_COVER("a waiter stays blocked");
  VX_ASSERT(owner == 0, "mutex still owned");
  if (destroyed) return;
#ifdef ROBM
  if (dead == 1) return;
#endif
  __vx_set_tid(5);
  CHK(pthread_mutex_trylock(&m), 0, "mutex is not free while threads wait"); CHK(pthread_mutex_unlock(&m), 0, "unlock");
  if (blocked) CHK(pthread_cond_destroy(&c), EBUSY, "destroy with waiting threads must give EBUSY");
  else { CHK(pthread_cond_signal(&c), 0, "signal without waiters"); CHK(pthread_cond_broadcast(&c), 0, "broadcast without waiters");


    CHK(pthread_cond_destroy(&c), 0, "destroy of an idle condition variable failed"); VX_ASSERT(c == 0, "destroyed condition variable is not invalidated"); CHK(pthread_cond_destroy(&c), EINVAL, "destroying twice must give EINVAL"); CHK(pthread_mutex_destroy(&m), 0, "mutex destroy"); }
  __vx_set_tid(0); }
