/* C20-C22: create, join, detach, identity. Thread 2 (and 3 if B3 is given) are created by the library; the others are attached.
   ops: C(k) create slot k (attributes AT), J(k) TJ(k) TM(k) JF(k) join forms, DT(k) detach, K(k) cancel; in bodies: Y, X pthread_exit, DS detach oneself, JS join oneself, KS cancel oneself; I identity check, SI(k) stale identity calls */
#include "h.h"
#define CANCELED ((void *)(size_t)-1)
#define MAXR 6
static pthread_t id[VX_MAXT], stale; static pthread_key_t key; static int made[VX_MAXT], begun[VX_MAXT], fin[VX_MAXT], dt[VX_MAXT], hd[VX_MAXT], det[VX_MAXT], joined[VX_MAXT], creq[VX_MAXT], retk[VX_MAXT], ident[VX_MAXT], hbase, abase; static void *ret[VX_MAXT]; static pthread_t me[VX_MAXT];
static int __vx_gone(int k) { return made[k] && vxw_exited[k]; }
static int __vx_pending(int k) { return !joined[k] && !det[k]; }
static void __vx_made(int k) { made[k] = 1; }
static void __vx_begin(int k, void *a) { VX_ASSERT(!begun[k], "the start routine runs twice"); begun[k] = 1; VX_ASSERT(a == (void *)(long long)(100 + k), "the start routine does not get its argument"); }
static void __vx_ends(int k, void *v) { ret[k] = v; fin[k] = 1; }
static void __vx_dtor(int t, void *v) { VX_ASSERT(!dt[t], "destructor runs twice"); dt[t] = 1; }
static void __vx_joined(int k, void *v) { VX_ASSERT(dt[k], "a join returned before the thread had finished"); if (!fin[k]) VX_ASSERT(creq[k], "a join returned before the thread had finished"); VX_ASSERT(v == (fin[k] ? ret[k] : CANCELED), "a join does not deliver the thread's value"); VX_ASSERT(!joined[k] && !det[k], "a thread was joined twice or after it was detached"); joined[k] = 1; VX_COVER("joined"); }
static void __vx_det(int k) { VX_ASSERT(!joined[k] && !det[k], "a thread was detached twice or after it was joined"); det[k] = 1; }
static void __vx_predet(int k) { det[k] = 1; }
static void __vx_creq(int k) { creq[k] = 1; }
static void __vx_me(int t, pthread_t p) { if (ident[t]) VX_ASSERT(me[t].p == p.p && me[t].x == p.x, "pthread_self changes during a thread's life"); else for (int k = 1; k < VX_MAXT; k++) if (ident[k] && k != t) VX_ASSERT(!(me[k].p == p.p && me[k].x == p.x), "two live threads have the same identity"); VX_ASSERT(!(stale.p && stale.p == p.p && stale.x == p.x), "the identity of a thread that has ended is given out again"); me[t] = p; ident[t] = 1; }
static void __vx_unme(int t) { ident[t] = 0; }
#define DDS { CHK(pthread_detach(pthread_self()), 0, "detaching oneself"); __vx_det(__vx_tid()); }
static void destructor(void *a) { int t = __vx_tid(); __vx_dtor(t, a);
#ifdef DB
  DB
#endif
}
static void join(int k) { void *v = (void *)77; int r = pthread_join(id[k], &v); CHK(r, 0, "pthread_join"); __vx_joined(k, v); }
static void join0(int k) { int r = pthread_join(id[k], 0); CHK(r, 0, "pthread_join"); __vx_joined(k, fin[k] ? ret[k] : CANCELED); }
static int tryjoin(int k) { void *v = (void *)77; int g = __vx_gone(k), r = pthread_tryjoin_np(id[k], &v); if (r == 0) { __vx_joined(k, v); return 1; } CHK(r, EBUSY, "pthread_tryjoin_np"); VX_ASSERT(!g, "pthread_tryjoin_np reports a thread that has finished as running"); CHK(v, (void *)77, "a failed pthread_tryjoin_np stores a value"); VX_COVER("busy"); return 0; }
static int timedjoin(int k) { void *v = (void *)77; struct timespec ts = abs_after(60); int g = __vx_gone(k), r = pthread_timedjoin_np(id[k], &v, &ts); if (r == 0) { __vx_joined(k, v); return 1; } CHK(r, ETIMEDOUT, "pthread_timedjoin_np"); VX_ASSERT(!g, "pthread_timedjoin_np times out on a thread that has finished"); CHK(v, (void *)77, "a failed pthread_timedjoin_np stores a value"); VX_COVER("timed out"); return 0; }
static void detach_(int k) { int r = pthread_detach(id[k]); CHK(r, 0, "pthread_detach"); __vx_det(k); }
static void cancel_(int k) { __vx_creq(k); int r = pthread_cancel(id[k]); VX_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); }
static void ident_(void) { __vx_me(__vx_tid(), pthread_self()); VX_ASSERT(pthread_equal(pthread_self(), pthread_self()), "pthread_equal"); }
static void unident(void) { __vx_unme(__vx_tid()); pthread_win32_thread_detach_np(); }
static void staleid(pthread_t s) { struct timespec ts = abs_after(60); void *v = (void *)77; struct sched_param p; int pol; p.sched_priority = 0; char nm[8];
  VX_ASSERT(!pthread_equal(s, pthread_self()), "a stale identity equals a live thread's");
  CHK(pthread_kill(s, 0), ESRCH, "pthread_kill accepts a stale identity"); CHK(pthread_cancel(s), ESRCH, "pthread_cancel accepts a stale identity"); CHK(pthread_join(s, &v), ESRCH, "pthread_join accepts a stale identity"); CHK(pthread_tryjoin_np(s, &v), ESRCH, "pthread_tryjoin_np accepts a stale identity"); CHK(pthread_timedjoin_np(s, &v, &ts), ESRCH, "pthread_timedjoin_np accepts a stale identity"); CHK(pthread_detach(s), ESRCH, "pthread_detach accepts a stale identity"); CHK(v, (void *)77, "a refused join stores a value");
#ifndef BRIEF
  CHK(pthread_setschedparam(s, SCHED_OTHER, &p), ESRCH, "pthread_setschedparam accepts a stale identity"); CHK(pthread_getschedparam(s, &pol, &p), ESRCH, "pthread_getschedparam accepts a stale identity");
  CHK(pthread_setname_np(s, "x"), ESRCH, "pthread_setname_np accepts a stale identity"); CHK(pthread_getname_np(s, nm, 8), ESRCH, "pthread_getname_np accepts a stale identity");
  cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs); CHK(pthread_setaffinity_np(s, sizeof cs, &cs), ESRCH, "pthread_setaffinity_np accepts a stale identity"); CHK(pthread_getaffinity_np(s, sizeof cs, &cs), ESRCH, "pthread_getaffinity_np accepts a stale identity");
#endif
  VX_COVER("!stale"); }
static void staleone(void) { 
  CHK(pthread_kill(stale, 0), ESRCH, "pthread_kill accepts a stale identity"); CHK(pthread_cancel(stale), ESRCH, "pthread_cancel accepts a stale identity"); CHK(pthread_detach(stale), ESRCH, "pthread_detach accepts a stale identity"); VX_COVER("!stale"); }
#ifndef AT
#define AT 0
#endif
#ifndef ATINIT
#define ATINIT
#endif
static pthread_attr_t att; static sem_t never;
static void *body2(void *); static void *body3(void *);
#define C(k) { CHK(pthread_create(&id[k], AT, body##k, (void *)(100 + k)), 0, "pthread_create"); __vx_made(k); }
#define J(k) join(k);
#define J0(k) join0(k);
#define TJ(k) if (__vx_pending(k)) tryjoin(k);
#define TM(k) if (__vx_pending(k)) timedjoin(k);
#define JF(k) if (__vx_pending(k)) join(k);
#define DT(k) detach_(k);
#define DF(k) if (__vx_pending(k)) detach_(k);
#define K(k) cancel_(k);
#define Y __vx_yield();
#define TC pthread_testcancel();
#define W sem_wait(&never);
#define I ident_();
#define OUT unident();
#define SI(k) if (joined[k]) staleid(id[k]);
#define SO staleone();
#define DS { pthread_t s_ = pthread_self(); int r_ = pthread_detach(s_); CHK(r_, 0, "detaching oneself"); __vx_det(T_); }
#define JS(e) { CHK(pthread_join(pthread_self(), 0), e, "joining oneself"); struct timespec ts_ = abs_after(60); CHK(pthread_tryjoin_np(pthread_self(), 0), e, "joining oneself"); CHK(pthread_timedjoin_np(pthread_self(), 0, &ts_), e, "joining oneself"); }
#define KS { __vx_creq(T_); CHK(pthread_cancel(pthread_self()), 0, "cancelling oneself"); }
#define X { __vx_ends(T_, (void *)(200 + T_)); pthread_exit((void *)(200 + T_)); VX_ASSERT(0, "pthread_exit returned"); }
#define BODY(k, s) static void *body##k(void *a) { enum { T_ = k }; __vx_begin(k, a); if (pthread_setspecific(key, (void *)1)) VX_ASSERT(0, "setspecific"); s __vx_ends(k, (void *)(300 + k)); return (void *)(300 + k); }
#ifdef B2
BODY(2, B2)
TH(2) { vx_slot_main(2); }
#else
TH(2) { enum { T_ = 2 }; S2 }
#endif
#ifdef B3
BODY(3, B3)
TH(3) { vx_slot_main(3); }
#endif
TH(1) { enum { T_ = 1 }; S1 }
#ifdef S3
TH(3) { enum { T_ = 3 }; S3 }
#endif
#ifndef SETUP
#define SETUP
#endif
#if !defined ATT && defined B3
#define ATT 2
#elif !defined ATT
#define ATT (2 | (NT > 2) * 8)
#endif
void vx_setup(void) { attach(5); CHK(pthread_key_create(&key, destructor), 0, "key_create"); sem_init(&never, 0, 0); pthread_attr_init(&att); ATINIT
  for (int t = 1; t <= 4; t++) { __vx_set_tid(t); stale = selfs[t]; pthread_win32_thread_detach_np(); } /* their records can be used again */
  hbase = vxw_open_handles; abase = vxw_allocs;
  for (int t = 1; t <= 4; t++) if ((ATT >> t) & 1) { __vx_set_tid(t); ident_(); }
  __vx_set_tid(1); SETUP __vx_set_tid(0); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; VX_COVER("!done");
  __vx_set_tid(5);
  for (int k = 2; k < 4; k++) if (made[k]) { VX_ASSERT(begun[k] && vxw_exited[k], "a created thread did not run"); CHK(dt[k], 1, "destructor runs"); if (!fin[k]) VX_ASSERT(creq[k], "the thread vanished");
    if (__vx_pending(k)) { CHK(pthread_kill(id[k], 0), 0, "a thread that was not joined is gone"); join(k); } 
    staleid(id[k]); }
  for (int t = 1; t <= 3; t++) if (!made[t]) { __vx_set_tid(t); pthread_win32_thread_detach_np(); }
  CHK(vxw_open_handles, hbase, "handles are leaked or lost"); CHK(vxw_allocs, abase, "memory is leaked or lost"); }
