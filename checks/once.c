/* C12: pthread_once from several threads; the routine may yield, be cancelled or exit (thread BAD never completes it).
   ops: O once, K(k) cancel thread k */
#include "h.h"
#ifndef EXITER
#define EXITER 0
#endif
#ifndef VICTIM
#define VICTIM 0
#endif
static pthread_once_t o = PTHREAD_ONCE_INIT;
static int runs, running, done_, tries, died[VX_MAXT], inonce[VX_MAXT];
static void __vx_in(void) { VX_ASSERT(!running, "two threads run the routine at once"); VX_ASSERT(!done_, "the routine runs again after it completed"); running = __vx_tid(); tries++; }
static void __vx_out(void) { running = 0; done_++; }
static void __vx_abandon(void) { running = 0; }
static void cl(void *a) { __vx_abandon(); }
static void routine(void) { int t = __vx_tid();
  __vx_in(); __vx_yield();
  pthread_cleanup_push(cl, 0);
  if (t == VICTIM) pthread_testcancel();
  if (t == EXITER) { VX_COVER("routine abandoned"); inonce[t] = 0; pthread_exit(0); }
  pthread_cleanup_pop(0);
  __vx_out(); }
static void onc(void *a) { int t = (int)(long long)a; inonce[t] = 0; died[t] = 1; VX_COVER("caller cancelled in the routine"); }
static void op_once(int t) { inonce[t] = 1;
  pthread_cleanup_push(onc, (void *)(long long)t);
  CHK(pthread_once(&o, routine), 0, "pthread_once failed");
  pthread_cleanup_pop(0);
  inonce[t] = 0; VX_ASSERT(done_ == 1, "pthread_once returned before the routine completed"); }
#define O op_once(t);
#define K(k) { int r = pthread_cancel(selfs[k]); VX_ASSERT(r == 0 || r == ESRCH, "pthread_cancel result"); }
void vx_setup(void) { attach(NT); CHK(pthread_once(0, routine), EINVAL, "NULL control"); CHK(pthread_once(&o, 0), EINVAL, "NULL routine"); { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); } }
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  no_deadlock("callers of pthread_once are blocked and nobody can wake them");
  if (!all_done()) return;
  VX_COVER("!all threads finished");
  __vx_set_tid(5); 
  VX_ASSERT(!running, "routine still running");
  CHK(pthread_once(&o, routine), 0, "pthread_once failed"); VX_ASSERT(done_ == 1, "the routine did not complete exactly once");
  __vx_set_tid(0); }
