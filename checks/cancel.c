/* C17-C19: cleanup handlers, cancellation state and type, cancellation points.
   ops: D/E disable/enable, A/F async/deferred type, B rejected settings, T testcancel, AP user code under async type, P(i) .. Q(run) cleanup handler i,
   K(k) cancel thread k, X pthread_exit, W WT sem waits, CW CT cond waits, JW JT joins, DL delay, V sem_post, L U mutex, R rdlock, BW barrier; C J create/join thread 2 (REAL) */
#include "h.h"
#define CANCELED ((void *)(size_t)-1)
#ifndef HB
#define HB
#endif
#ifndef REAL
#define REAL 0
#endif
#ifndef PATIENT
#define PATIENT ~0
#endif
enum { NONE, TEST, WAIT, SET, USER };
static int en[VX_MAXT], ty[VX_MAXT], req[VX_MAXT], got[VX_MAXT], cur[VX_MAXT], st[VX_MAXT][6], sp[VX_MAXT], dying[VX_MAXT], fin[VX_MAXT], dtor[VX_MAXT], popping[VX_MAXT], joined, args[8], started[VX_MAXT];
static pthread_key_t key; static sem_t s; static pthread_mutex_t m; static pthread_cond_t c; static pthread_rwlock_t rw; static pthread_barrier_t bar; static pthread_t self2;
static void __vx_dies(int t) { if (dying[t]) return; VX_ASSERT(!fin[t], "a handler runs after its code completed"); VX_ASSERT(req[t], "a thread is cancelled that nobody asked to"); VX_ASSERT(en[t], "a cancel request is acted on while cancellation is disabled"); VX_ASSERT(cur[t] != NONE, "a cancel request is acted on where there is no cancellation point"); dying[t] = 1; VX_COVER(CANCELS); }
static void __vx_handler(int t, int i) { if (!popping[t]) __vx_dies(t); VX_ASSERT(sp[t] > 0, "a cleanup handler runs that is not pushed"); if (sp[t] > 0) { sp[t]--; VX_ASSERT(st[t][sp[t]] == i, "the cleanup handlers do not run in reverse order"); } popping[t] = 0; }
static void __vx_dtor(int t) { if (!fin[t]) __vx_dies(t); VX_ASSERT(sp[t] == 0 || fin[t], "thread-specific destructors run before the cleanup handlers"); dtor[t]++; }
static void __vx_begin_dying(int t) { dying[t] = 2; }
static int __vx_at(int t, int k) { cur[t] = k; return got[t] && en[t]; }
static void __vx_passed(int t, int must) { cur[t] = NONE; VX_ASSERT(!must, "a cancellation point was passed although a request was pending and cancellation enabled"); }
static void __vx_push(int t, int i) { st[t][sp[t]++] = i; }
static void __vx_pop(int t, int run) { if (run) popping[t] = 1; else sp[t]--; }
static void __vx_popped(int t) { VX_ASSERT(!popping[t], "pop with a nonzero argument did not run the handler"); }
static void __vx_req(int k) { req[k]++; }
static void __vx_got(int k, int r) { if (r == 0) got[k] = 1; else { CHK(r, ESRCH, "pthread_cancel result"); VX_ASSERT(dying[k] || fin[k] || req[k] > 1, "cancelling a running thread failed"); } }
static int __vx_en(int t, int v) { int o = en[t]; if (v >= 0) en[t] = v; return o; }
static int __vx_ty(int t, int v) { int o = ty[t]; if (v >= 0) ty[t] = v; return o; }
static void __vx_fin(int t) { fin[t] = 1; }
#define HT if (!dying[t]) { int mu = __vx_at(t, TEST); pthread_testcancel(); __vx_passed(t, mu); } else pthread_testcancel();
#define HY __vx_yield();
#define HS { struct timespec a = abs_after(60); int r = sem_timedwait(&s, &a); VX_ASSERT(r == -1 && errno == ETIMEDOUT, "a handler cannot wait for a semaphore"); struct timespec b = { 5, 0 }; CHK(pthread_delay_np(&b), 0, "a handler cannot wait"); }
static void handler(void *a) { int t = __vx_tid(); __vx_handler(t, (int *)a - args); HB }
#ifndef DB
#define DB
#endif
static void destructor(void *a) { int t = __vx_tid(); __vx_dtor(t); DB }
static void op_dis(int t) { int o = -9; CHK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o), 0, "setcancelstate"); CHK(o, __vx_en(t, 0) ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE, "previous cancel state"); }
static void op_en(int t) { int o = -9, w = __vx_en(t, 1); if (__vx_ty(t, -1)) __vx_at(t, SET); CHK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o), 0, "setcancelstate"); __vx_passed(t, 0); CHK(o, w ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE, "previous cancel state"); }
static void op_async(int t) { int o = -9, w = __vx_ty(t, 1); __vx_at(t, SET); CHK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &o), 0, "setcanceltype"); CHK(o, w ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, "previous cancel type"); __vx_at(t, USER); }
static void op_defer(int t) { int o = -9; __vx_at(t, USER); CHK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &o), 0, "setcanceltype"); __vx_passed(t, 0); CHK(o, __vx_ty(t, 0) ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, "previous cancel type"); }
static void op_bad(int t) { int o = -9, v = (int)__vx_nondet("setting"); if (v == PTHREAD_CANCEL_ENABLE || v == PTHREAD_CANCEL_DISABLE) v = 77; CHK(pthread_setcancelstate(v, &o), EINVAL, "unknown cancel state accepted"); if (v == PTHREAD_CANCEL_DEFERRED || v == PTHREAD_CANCEL_ASYNCHRONOUS) v = 77; CHK(pthread_setcanceltype(v, &o), EINVAL, "unknown cancel type accepted"); CHK(o, -9, "a rejected setting stored a result"); }
static void op_test(int t) { int must = __vx_at(t, TEST); pthread_testcancel(); __vx_passed(t, must); }
static void op_user(int t) { int must = __vx_at(t, USER); vxw_async_point(); __vx_passed(t, 0); }
static void op_cancel(int t, int k) { __vx_req(k); int r = pthread_cancel(k == 2 && REAL ? self2 : selfs[k]); __vx_got(k, r); }
static void op_selfcancel(int t) { __vx_req(t); if (__vx_ty(t, -1)) __vx_at(t, USER); int r = pthread_cancel(pthread_self()); __vx_got(t, r); __vx_passed(t, __vx_ty(t, -1) && __vx_en(t, -1)); }
static void op_wait(int t) { int must = __vx_at(t, WAIT), r = sem_wait(&s); CHK(r, 0, "sem_wait"); __vx_passed(t, 0); }
static void op_waitt(int t) { struct timespec a = abs_after(60); int must = __vx_at(t, WAIT), r = sem_timedwait(&s, &a); __vx_passed(t, must && r); VX_ASSERT(r == 0 || errno == ETIMEDOUT, "sem_timedwait result"); }
static void unl(void *a) { CHK(pthread_mutex_unlock(&m), 0, "the mutex is not held when a cancelled condition wait runs its handlers"); }
static void op_cw(int t) { CHK(pthread_mutex_lock(&m), 0, "lock"); pthread_cleanup_push(unl, 0); int must = __vx_at(t, WAIT), r = pthread_cond_wait(&c, &m); CHK(r, 0, "cond_wait"); __vx_passed(t, 0); pthread_cleanup_pop(1); }
static void op_ct(int t) { struct timespec a = abs_after(60); CHK(pthread_mutex_lock(&m), 0, "lock"); pthread_cleanup_push(unl, 0); int must = __vx_at(t, WAIT), r = pthread_cond_timedwait(&c, &m, &a); __vx_passed(t, must); VX_ASSERT(r == 0 || r == ETIMEDOUT, "cond_timedwait result"); pthread_cleanup_pop(1); }
static pthread_t other; static void *forever(void *a) { return a; }
static void op_jw(int t) { int must = __vx_at(t, WAIT), r = pthread_join(other, 0); VX_ASSERT(0, "join of a thread that never ends returned"); }
static void op_jt(int t) { struct timespec a = abs_after(60); int must = __vx_at(t, WAIT), r = pthread_timedjoin_np(other, 0, &a); __vx_passed(t, must); CHK(r, ETIMEDOUT, "timedjoin result"); }
static void op_delay(int t) { struct timespec a = { 5, 0 }; int must = __vx_at(t, WAIT), r = pthread_delay_np(&a); __vx_passed(t, must); CHK(r, 0, "delay result"); }
static void op_delay0(int t) { struct timespec a = { 0, 0 }; int must = __vx_at(t, WAIT), r = pthread_delay_np(&a); __vx_passed(t, must); CHK(r, 0, "delay result"); }
#define D op_dis(T);
#define E op_en(T);
#define A op_async(T);
#define F op_defer(T);
#define B op_bad(T);
#define T_ op_test(T);
#define AP op_user(T);
#define P(i) pthread_cleanup_push(handler, &args[i]); __vx_push(T, i); {
#define Q(run) } __vx_pop(T, run); pthread_cleanup_pop(run); __vx_popped(T);
#define K(k) op_cancel(T, k);
#define KS op_selfcancel(T);
#define X { __vx_begin_dying(T); pthread_exit((void *)5); VX_ASSERT(0, "pthread_exit returned"); }
#define Y __vx_yield();
#define W op_wait(T);
#define WT op_waitt(T);
#define CW op_cw(T);
#define CT op_ct(T);
#define JW op_jw(T);
#define JT op_jt(T);
#define DL op_delay(T);
#define D0 op_delay0(T);
#define V CHK(sem_post(&s), 0, "sem_post");
#define L CHK(pthread_mutex_lock(&m), 0, "mutex_lock");
#define U CHK(pthread_mutex_unlock(&m), 0, "mutex_unlock");
#define RD CHK(pthread_rwlock_rdlock(&rw), 0, "rdlock"); CHK(pthread_rwlock_unlock(&rw), 0, "rwlock unlock");
#define WR CHK(pthread_rwlock_wrlock(&rw), 0, "wrlock"); __vx_yield(); CHK(pthread_rwlock_unlock(&rw), 0, "rwlock unlock");
#define BW { int r = pthread_barrier_wait(&bar); VX_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier_wait"); }
#define FIN __vx_fin(T);
#define SIG { CHK(pthread_mutex_lock(&m), 0, "lock"); CHK(pthread_cond_signal(&c), 0, "signal"); CHK(pthread_mutex_unlock(&m), 0, "unlock"); }
#if REAL
static void *body(void *a) { enum { T = 2 }; VX_ASSERT(started[2]++ == 0, "started twice"); CHK(pthread_setspecific(key, (void *)1), 0, "setspecific"); S2 FIN return (void *)6; }
#define C CHK(pthread_create(&self2, 0, body, 0), 0, "pthread_create");
static void __vx_joined(void *v) { joined = 1; VX_ASSERT(v == (dying[2] == 1 ? CANCELED : dying[2] == 2 ? (void *)5 : (void *)6), "the joiner does not get the value the thread ended with"); }
#define J { void *v = (void *)9; CHK(pthread_join(self2, &v), 0, "pthread_join"); __vx_joined(v); }
TH(2) { vx_slot_main(2); }
#else
TH(2) { enum { T = 2 }; S2 FIN }
#endif
TH(1) { enum { T = 1 }; S1 FIN }
#ifdef S3
TH(3) { enum { T = 3 }; S3 FIN }
#endif
void vx_setup(void) { attach(REAL ? 1 : NT); for (int t = 1; t < VX_MAXT; t++) en[t] = 1; if (REAL && NT > 2) { __vx_set_tid(3); selfs[3] = pthread_self(); } __vx_set_tid(1); CHK(pthread_key_create(&key, destructor), 0, "key_create"); sem_init(&s, 0, 0); pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); pthread_rwlock_init(&rw, 0); pthread_barrier_init(&bar, 0, 2); vxw_patient = PATIENT;
#ifdef OTHER
  vxw_next_slot = 4; CHK(pthread_create(&other, 0, forever, 0), 0, "create"); vxw_next_slot = 2;
#endif
  for (int t = 1; t <= NT; t++) if (!REAL || t != 2) { __vx_set_tid(t); CHK(pthread_setspecific(key, (void *)1), 0, "setspecific"); } __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(0); }
void vx_final(void) { int all = 1, blocked = 1;
  for (int t = 1; t <= NT; t++) if (!__vx_done(t)) { all = 0; if (!__vx_stuck(t)) blocked = 0; }
  if (!all) { if (blocked) for (int t = 1; t <= NT; t++) if (!__vx_done(t)) { VX_ASSERT(!(cur[t] != NONE && en[t] && got[t] && !dying[t]), "a thread stays blocked at a cancellation point although a request is pending"); VX_ASSERT(cur[t] == WAIT && !dying[t] || t == 1 && REAL, "a thread is stuck where nothing keeps it"); } return; }
  VX_COVER("!done"); for (int t = 1; t <= NT; t++) { if (dying[t] || !fin[t]) { VX_ASSERT(dying[t] || !fin[t], "state"); VX_ASSERT(dying[t], "a thread ended although neither cancelled nor finished"); CHK(sp[t], 0, "a pushed cleanup handler did not run"); CHK(dtor[t], 1, "thread-specific destructor runs"); VX_ASSERT(!fin[t], "a thread goes on after cancellation"); if (dying[t] == 1 && (t != 2 || !REAL)) VX_ASSERT(vxw_exitcode[t] == -1, "a cancelled thread does not end with PTHREAD_CANCELED"); } }
  __vx_set_tid(5); /* the objects are still in order */
  CHK(pthread_mutex_lock(&m), 0, "mutex after a cancellation"); CHK(pthread_mutex_unlock(&m), 0, "mutex after a cancellation"); CHK(sem_post(&s), 0, "post"); CHK(sem_trywait(&s), 0, "semaphore after a cancellation"); CHK(pthread_cond_broadcast(&c), 0, "condition after a cancellation"); __vx_set_tid(0); }
