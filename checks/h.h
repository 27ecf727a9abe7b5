/* common part of all harnesses: public API of the library + engine primitives */
#ifndef H_H
#define H_H
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <limits.h>
#include "vx.h"
#ifndef NT
#define NT 0
#endif
static pthread_t selfs[VX_MAXT];
#define CHK(e, want, msg) VX_ASSERT((e) == (want), msg)
/* give the engine's threads 1..n an identity before they run */
static void attach(int n) {
  pthread_win32_process_attach_np();
  for (int t = 1; t <= n; t++) { __vx_set_tid(t); selfs[t] = pthread_self(); }
  __vx_set_tid(0);
}
/* no set of threads may be blocked for ever while nobody can run */
static int all_done(void) { int a = 1; for (int t = 1; t <= NT; t++) if (!__vx_done(t)) a = 0; return a; }
static void no_deadlock(const char *msg) {
  int all = 1, blocked = 1;
  for (int t = 1; t <= NT; t++) { if (!__vx_done(t)) { all = 0; if (!__vx_stuck(t)) blocked = 0; } }
  VX_ASSERT(all || !blocked, msg);
}
#define ABS_PAST   { 1000, 0 }
#define ABS_FUTURE 60000   /* seconds after the model's clock */
static struct timespec abs_after(long long secs) { /* model clock is 132000000000000000 FILETIME units = 1555526400 s */
  struct timespec t; t.tv_sec = 1555526400LL + secs; t.tv_nsec = 0; return t; }
#ifdef OBJF0 /* up to OBJF0 kernel-object creations fail while the threads run */
void vx_setup_(void); void vx_final_(void);
void vx_setup(void) { vx_setup_(); vxw_obj_fail_budget = OBJF0; }
void vx_final(void) { if (vxw_obj_fail_budget < OBJF0) VX_COVER("a creation failed"); vxw_obj_fail_budget = 0; vx_final_(); }
#define vx_setup vx_setup_
#define vx_final vx_final_
#endif
#define TH(k) void vx_thread##k(void)
#endif
