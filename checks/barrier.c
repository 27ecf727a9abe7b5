/* C08: N threads per generation. ops: B wait, X destroy attempt while others may wait, Y yield. */
#include "h.h"
#ifndef HEIGHT
#define HEIGHT NT
#endif
static pthread_barrier_t b;
static int arrived, left_, serial[8], arrgen[VX_MAXT], gone[8], inw[VX_MAXT], destroyed;
static int __vx_arr(int t) { inw[t] = 1; int g = arrived / HEIGHT; arrived++; return g; }
static void __vx_lv(int t, int r) { inw[t] = 0; left_++; VX_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier wait result is neither 0 nor PTHREAD_BARRIER_SERIAL_THREAD");
  /* generation of the k-th leaver: with complete groups left_-1 / HEIGHT counts crossings in order of groups */
  VX_ASSERT(left_ <= (arrived / HEIGHT) * HEIGHT, "a thread passed the barrier before its group was complete"); }
static int nser;
static void __vx_ser(void) { nser++; VX_ASSERT(nser <= arrived / HEIGHT, "more serial threads than complete groups"); }
static void __vx_nonser(void) { VX_ASSERT(left_ - nser <= (arrived / HEIGHT) * (HEIGHT - 1), "a group without its serial thread"); }
static void op_wait(int t) { __vx_arr(t); int r = pthread_barrier_wait(&b); __vx_lv(t, r); if (r == PTHREAD_BARRIER_SERIAL_THREAD) __vx_ser(); else __vx_nonser(); }
static int __vx_sure(int t) { int n = 0; for (int k = 1; k <= NT; k++) n += inw[k]; return n > 0 && arrived % HEIGHT == n && left_ == (arrived / HEIGHT) * HEIGHT; }
static int __vx_idle(void) { int n = 0; for (int k = 1; k <= NT; k++) n += inw[k]; return n == 0; }
static void op_destroy(int t) { int idle = __vx_idle(); int r = pthread_barrier_destroy(&b); VX_ASSERT(r == 0 || r == EBUSY, "destroy result"); if (r == 0) { destroyed = 1; } }
#define B op_wait(t);
#define Y __vx_yield();
void vx_setup(void) { attach(NT); { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); }
  CHK(pthread_barrier_init(&b, 0, 0), EINVAL, "barrier of height 0 accepted");
  CHK(pthread_barrier_init(&b, 0, HEIGHT), 0, "barrier_init"); }
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  int quiet = 1, blocked = 0;
  for (int t = 1; t <= NT; t++) if (!__vx_done(t)) { if (!__vx_stuck(t)) quiet = 0; else blocked++; }
  if (!quiet) return;
  VX_COVER("!all threads finished or blocked");
  for (int t = 1; t <= NT; t++) VX_ASSERT(__vx_done(t) || inw[t], "a thread is blocked outside the barrier");
  VX_ASSERT(left_ == (arrived / HEIGHT) * HEIGHT, "a complete group did not pass the barrier");
  VX_ASSERT(nser == arrived / HEIGHT, "a group passed without exactly one serial thread");
  __vx_set_tid(5);
  if (blocked) { VX_COVER("threads wait for an incomplete group"); CHK(pthread_barrier_destroy(&b), EBUSY, "destroy with waiting threads must give EBUSY"); }
  else { int n0 = vxw_open_handles, a0 = vxw_allocs; CHK(pthread_barrier_destroy(&b), 0, "destroy of an idle barrier failed"); VX_ASSERT(vxw_open_handles == n0 - 1 && vxw_allocs == a0 - 2, "destroy leaks");
    CHK(pthread_barrier_wait(&b), EINVAL, "destroyed barrier is not rejected"); CHK(pthread_barrier_destroy(&b), EINVAL, "destroying twice must give EINVAL"); }
  __vx_set_tid(0); }
