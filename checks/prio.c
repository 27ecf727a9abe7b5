/* C26: policies, priorities, concurrency level: every argument value, every order of two changes, threads racing on one target. */
#include "h.h"
#ifndef ROUNDS
#define ROUNDS 0
#endif
extern int vxw_setprio_fail; extern unsigned vxw_openproc_err;
static int err(int r) { return r == -1 ? errno : 0; }
static int lo, hi;
static int getp(int t) { int pol = -9; struct sched_param p; p.sched_priority = -99; CHK(pthread_getschedparam(selfs[t], &pol, &p), 0, "pthread_getschedparam"); CHK(pol, SCHED_OTHER, "policy of a thread"); return p.sched_priority; }
static int level(int w) { return (w >= -2 && w <= 2) || w == -15 || w == 15; }
static int known(int policy) { return policy == SCHED_OTHER || policy == SCHED_FIFO || policy == SCHED_RR; }
#if defined(SEQ)
static int rec[4];
static void look(void) { for (int t = 1; t < 4; t++) CHK(getp(t), rec[t], "priority read back differs from what was set"); }
static int set1(int t, int pol, int v, int fail) { struct sched_param p; p.sched_priority = v; int w0 = __vxw_tprio(t); vxw_setprio_fail = fail; int r = pthread_setschedparam(selfs[t], pol, &p); vxw_setprio_fail = 0;
  if (!known(pol)) { CHK(r, EINVAL, "an unknown policy must give EINVAL"); VX_COVER("!unknown policy"); } else if (pol != SCHED_OTHER) { CHK(r, ENOTSUP, "real-time policies must give ENOTSUP"); VX_COVER("!real-time policy"); }
  else if (v < lo || v > hi) { CHK(r, EINVAL, "a priority out of range must give EINVAL"); VX_COVER("!out of range"); } else if (fail) { VX_ASSERT(r != 0, "a failing system call must be reported"); } else { CHK(r, 0, "legal priority rejected"); rec[t] = v; VX_COVER("!set"); VX_ASSERT(level(__vxw_tprio(t)), "not a level the system supports"); return 1; }
  CHK(__vxw_tprio(t), w0, "a rejected priority reached the system"); return 0; }
void vx_setup(void) { attach(3); __vx_set_tid(1); lo = sched_get_priority_min(SCHED_OTHER); hi = sched_get_priority_max(SCHED_OTHER); VX_ASSERT(lo < hi && lo <= 0 && hi >= 0, "empty priority range");
  int any = (int)__vx_nondet("policy"); int mn = sched_get_priority_min(any), e1 = mn == -1 ? errno : 0, mx = sched_get_priority_max(any), e2 = mx == -1 ? errno : 0;
  if (known(any)) { CHK(mn, lo, "minimum priority"); CHK(mx, hi, "maximum priority"); } else { VX_ASSERT(mn == -1 && e1 == EINVAL, "minimum of an unknown policy"); VX_ASSERT(mx == -1 && e2 == EINVAL, "maximum of an unknown policy"); }
  look(); int a = (int)__vx_nondet("prio1"), b = (int)__vx_nondet("prio2"), who = __vx_nondet("who") & 1, f = __vx_nondet("fail") & 1;
  int ok1, ok2; if (who) ok1 = set1(2, any, a, f); else ok1 = set1(1, any, a, f); look(); ok2 = set1(3, SCHED_OTHER, b, 0); look();
  if (ok1 && ok2) { int w1 = who ? __vxw_tprio(2) : __vxw_tprio(1), w2 = __vxw_tprio(3); VX_ASSERT(!(a <= b) || w1 <= w2, "a higher priority is mapped to a lower level"); VX_ASSERT(a != 0 || w1 == 0, "normal priority is not mapped to the normal level"); VX_ASSERT(a != lo || w1 == -15, "the lowest priority is not the lowest level"); VX_ASSERT(a != hi || w1 == 15, "the highest priority is not the highest level"); VX_COVER("!compared"); }
  ok2 = set1(3, SCHED_OTHER, a, 0); look();
  struct sched_param p; int pol; p.sched_priority = 0; CHK(pthread_getschedparam(selfs[1], 0, &p), EINVAL, "NULL policy");
  __vx_set_tid(3); pthread_win32_thread_detach_np(); __vx_set_tid(1); p.sched_priority = 77; pol = 77; CHK(pthread_setschedparam(selfs[3], SCHED_OTHER, &p), ESRCH, "setschedparam of an ended thread"); CHK(pthread_getschedparam(selfs[3], &pol, &p), ESRCH, "getschedparam of an ended thread"); VX_ASSERT(pol == 77 && p.sched_priority == 77, "a rejected call stored a result");
  VX_COVER("!done"); }
#elif defined(SCHED)
void vx_setup(void) { attach(1); __vx_set_tid(1); int pid = (int)__vx_nondet("pid"), pol = (int)__vx_nondet("policy"), q = __vx_nondet("fault") % 3, own = pid == 0 || pid == 77, r, h0 = vxw_open_handles; vxw_openproc_err = q == 1 ? 5 : q == 2 ? 87 : 0;
  errno = 0; r = sched_getscheduler((pid_t)pid); if (own || q == 0) CHK(r, SCHED_OTHER, "sched_getscheduler"); else { CHK(r, -1, "sched_getscheduler of another process"); CHK(errno, q == 1 ? EPERM : ESRCH, "sched_getscheduler error"); }
  errno = 0; r = sched_setscheduler((pid_t)pid, pol); if (own || q == 0) { if (pol == SCHED_OTHER) CHK(r, SCHED_OTHER, "sched_setscheduler"); else { CHK(r, -1, "unsupported policy"); CHK(errno, ENOSYS, "sched_setscheduler with an unsupported policy"); } } else { CHK(r, -1, "sched_setscheduler of another process"); CHK(errno, q == 1 ? EPERM : ESRCH, "sched_setscheduler error"); }
  CHK(vxw_open_handles, h0, "a handle leaks"); CHK(sched_yield(), 0, "sched_yield");
  int l = (int)__vx_nondet("level"), m = (int)__vx_nondet("level2"); CHK(pthread_getconcurrency(), 0, "initial concurrency level"); r = pthread_setconcurrency(l); if (l < 0) CHK(r, EINVAL, "negative level"); else { CHK(r, 0, "setconcurrency"); VX_COVER("!level"); }
  int c = l < 0 ? 0 : l; CHK(pthread_getconcurrency(), c, "concurrency level read back"); r = pthread_setconcurrency(m); if (m < 0) CHK(r, EINVAL, "negative level"); else { CHK(r, 0, "setconcurrency"); c = m; } CHK(pthread_getconcurrency(), c, "concurrency level read back"); VX_COVER("!done"); }
#elif defined(CREATE)
static void *run(void *a) { return a; }
extern int SetThreadPriority(void *, int);
static int map(int v) { return v == lo || v == hi ? v : v < -2 ? -2 : v > 2 ? 2 : v; }
void vx_setup(void) { int w0 = (int)(__vx_nondet("winprio") % 5) - 2; __vx_set_tid(1); SetThreadPriority((void *)-2LL, w0); attach(1); __vx_set_tid(1); lo = sched_get_priority_min(SCHED_OTHER); hi = sched_get_priority_max(SCHED_OTHER);
  CHK(getp(1), w0, "priority of a thread not created by the library"); int mine = w0; struct sched_param p; pthread_attr_t a; int v = (int)__vx_nondet("mine"), u = (int)__vx_nondet("attrprio"), use = __vx_nondet("attr") & 1, inh = __vx_nondet("inherit") & 1, setp = __vx_nondet("setp") & 1;
  if (v >= lo && v <= hi) { p.sched_priority = v; CHK(pthread_setschedparam(selfs[1], SCHED_OTHER, &p), 0, "setschedparam"); mine = v; }
  pthread_attr_init(&a); CHK(pthread_attr_setinheritsched(&a, inh ? PTHREAD_INHERIT_SCHED : PTHREAD_EXPLICIT_SCHED), 0, "setinheritsched"); int exp = 0; if (setp && u >= lo && u <= hi) { p.sched_priority = u; CHK(pthread_attr_setschedparam(&a, &p), 0, "attr_setschedparam"); exp = u; }
  if (inh) exp = mine; if (!use) exp = 0; CHK(pthread_create(&selfs[2], use ? &a : 0, run, 0), 0, "pthread_create"); 
  CHK(getp(2), exp, "priority of the new thread is not that of its attributes or of its creator"); CHK(__vxw_tprio(2), map(exp), "level of the new thread"); CHK(getp(1), mine, "the creator's priority changed"); VX_COVER("!done"); }
#else
static void op_set(int t, int k) { struct sched_param p; p.sched_priority = (int)(__vx_nondet("prio") % 31) - 15; int x = p.sched_priority; CHK(pthread_setschedparam(selfs[k], SCHED_OTHER, &p), 0, "setschedparam"); }
static void op_get(int t, int k) { int v = getp(k); VX_ASSERT(v >= -15 && v <= 15, "priority never set"); }
#define S(k) op_set(T, k);
#define G(k) op_get(T, k);
#ifdef S1
TH(1) { enum { T = 1 }; S1 }
#endif
#ifdef S2
TH(2) { enum { T = 2 }; S2 }
#endif
#ifdef S3
TH(3) { enum { T = 3 }; S3 }
#endif
void vx_setup(void) { attach(NT); }
void vx_final(void) { no_deadlock("threads stuck in scheduling calls"); if (!all_done()) return; VX_COVER("!done"); lo = sched_get_priority_min(SCHED_OTHER); hi = sched_get_priority_max(SCHED_OTHER); __vx_set_tid(1);
  for (int t = 1; t <= NT; t++) { int v = getp(t), w = v == lo || v == hi ? v : v < -2 ? -2 : v > 2 ? 2 : v; CHK(__vxw_tprio(t), w, "the priority reported is not the one in force"); } }
#endif
