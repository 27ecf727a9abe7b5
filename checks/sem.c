/* C04/C05: scripts of semaphore operations against a ghost count of units.
   ops: W wait, V trywait, D timedwait (future), Z timedwait (past), I timedwait(NULL), P post, Q post_multiple(2), G getvalue, K(k) cancel thread k */
#include "h.h"
#ifndef INIT
#define INIT 0
#endif
#ifndef PATIENT
#define PATIENT 0
#endif
static sem_t s;
/* units posted: begun / completed; waits begun by each thread, completed waits */
static int pbeg = INIT, pend = INIT, wdone, wopen, inwait[VX_MAXT], cancelled[VX_MAXT], tookafter[VX_MAXT], ovf;
static int tb_post[VX_MAXT], tb_w[VX_MAXT], wbeg;
static struct timespec past, future;
static void __vx_pb(int n) { pbeg += n; }
static void __vx_pe(int n) { pend += n; }
static void __vx_wb(int t) { inwait[t] = 1; wopen++; wbeg++; tb_post[t] = pend; tb_w[t] = wdone + wopen; }
/* a wait ended: got = it took a unit */
static void __vx_we(int t, int got) { inwait[t] = 0; wopen--; if (got) { wdone++; VX_ASSERT(wdone <= pbeg, "more waits completed than units were posted"); } }
/* EAGAIN or a timeout is legitimate only if other threads could have emptied the semaphore */
/* failing without blocking is legitimate only if the count can have been 0 during the call:
   units completed before the call minus everything other waits can have taken until now */
static void __vx_noneleft(int t) { VX_ASSERT(tb_post[t] - (wdone + wopen) <= 0, "no unit reported although one was available throughout the call"); }
static void onc(void *a) { int t = (int)(long long)a; __vx_we(t, 0); cancelled[t] = 1; VX_COVER("wait cancelled"); }
static void op_wait(int t, int kind) {
  int r; __vx_wb(t);
  pthread_cleanup_push(onc, (void *)(long long)t);
  r = kind == 0 ? sem_wait(&s) : sem_timedwait(&s, kind == 1 ? &future : kind == 2 ? &past : 0);
  pthread_cleanup_pop(0);
  if (r == 0) __vx_we(t, 1);
  else { int e = errno; CHK(r, -1, "semaphore wait result is neither 0 nor -1"); CHK(e, ETIMEDOUT, "semaphore wait failed with an error other than ETIMEDOUT");
    VX_ASSERT(kind == 2 || (kind == 1 && !((PATIENT >> t) & 1)), "semaphore wait gave up before its deadline"); __vx_we(t, 0); if (kind == 2) __vx_noneleft(t); VX_COVER("wait expired"); } }
static void op_try(int t) { __vx_wb(t); int r = sem_trywait(&s); if (r == 0) { __vx_we(t, 1); } else { int e = errno; CHK(r, -1, "sem_trywait result"); CHK(e, EAGAIN, "sem_trywait failed with an error other than EAGAIN"); __vx_we(t, 0); __vx_noneleft(t); } }
static void op_post(int t) { __vx_pb(1); int r = sem_post(&s); CHK(r, 0, "sem_post failed"); __vx_pe(1); }
static void op_postn(int t, int n) { __vx_pb(n); int r = sem_post_multiple(&s, n); CHK(r, 0, "sem_post_multiple failed"); __vx_pe(n); }
static int lo[VX_MAXT];
static void __vx_glo(int t) { lo[t] = pend; }
static void __vx_gck(int t, int v) { VX_ASSERT(v <= pbeg, "sem_getvalue reports more units than were posted"); VX_ASSERT(v >= lo[t] - (wdone + wopen), "sem_getvalue reports fewer units than are available"); }
static void op_get(int t) { int v = -99; __vx_glo(t); CHK(sem_getvalue(&s, &v), 0, "sem_getvalue failed"); __vx_gck(t, v); }
static void op_cancel(int t, int k) { int r = pthread_cancel(selfs[k]); VX_ASSERT(r == 0 || r == ESRCH, "pthread_cancel result"); }
#define W op_wait(t, 0);
#define D op_wait(t, 1);
#define Z op_wait(t, 2);
#define I op_wait(t, 3);
#define V op_try(t);
#define P op_post(t);
#define Q op_postn(t, 2);
#define G op_get(t);
#define K(k) op_cancel(t, k);
void vx_setup(void) { past = abs_after(-5); future = abs_after(ABS_FUTURE); vxw_patient = PATIENT; attach(NT + 0);
  { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); }
  CHK(sem_init(&s, 0, INIT), 0, "sem_init"); }
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  int quiet = 1, blocked = 0, v = -99;
  for (int t = 1; t <= NT; t++) { if (!__vx_done(t)) { if (!__vx_stuck(t)) quiet = 0; else blocked++; } }
  if (!quiet) return;
  for (int t = 1; t <= NT; t++) VX_ASSERT(__vx_done(t) || inwait[t], "a thread is stuck outside a semaphore wait");
  __vx_set_tid(5);
  int units = pend - wdone;
  if (blocked) VX_COVER("a waiter stays blocked");
  VX_COVER("!all threads finished or blocked");
  VX_ASSERT(units >= 0, "more waits completed than units posted");
  VX_ASSERT(!blocked || units <= 0, "a thread stays blocked although a unit is available");
  CHK(sem_getvalue(&s, &v), 0, "sem_getvalue failed");
  VX_ASSERT(blocked ? v <= 0 : v == units, "sem_getvalue does not report the units available");
  if (!blocked) {
    if (units > 0) { CHK(sem_trywait(&s), 0, "available unit cannot be taken"); units--; CHK(sem_post(&s), 0, "sem_post"); units++; }
    else { CHK(sem_trywait(&s), -1, "sem_trywait takes a unit that does not exist"); CHK(errno, EAGAIN, "sem_trywait errno"); CHK(sem_post(&s), 0, "sem_post"); CHK(sem_getvalue(&s, &v), 0, "sem_getvalue"); CHK(v, 1, "posted unit is lost"); CHK(sem_trywait(&s), 0, "posted unit cannot be taken"); CHK(sem_trywait(&s), -1, "one posted unit was taken twice"); }
    /* wait without blocking must consume, a second post/wait pair must match */
    CHK(sem_post(&s), 0, "sem_post"); CHK(sem_wait(&s), 0, "sem_wait with a unit available");
    /* and once nothing is left a wait must really wait: no wakeup may be left over */
    while (units > 0) { CHK(sem_trywait(&s), 0, "available unit cannot be taken"); units--; }
    CHK(sem_timedwait(&s, &past), -1, "a wait takes a unit that does not exist (stale wakeup)"); CHK(errno, ETIMEDOUT, "sem_timedwait with an expired time: errno");
    CHK(sem_getvalue(&s, &v), 0, "sem_getvalue"); CHK(v, 0, "an expired wait changes the count");
    { int n0 = vxw_open_handles, a0 = vxw_allocs; CHK(sem_destroy(&s), 0, "sem_destroy of an idle semaphore failed"); CHK(vxw_open_handles, n0 - 1, "sem_destroy does not release its handle"); CHK(vxw_allocs, a0 - 1, "sem_destroy does not release its memory"); }
  } else { CHK(sem_destroy(&s), -1, "sem_destroy succeeds with threads waiting"); CHK(errno, EBUSY, "sem_destroy with waiters must give EBUSY"); CHK(sem_getvalue(&s, &v), 0, "sem_getvalue after refused destroy"); }
  __vx_set_tid(0); }
