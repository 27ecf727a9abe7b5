/* C28: starting and stopping the library. SEQ: the solver picks STEPS steps of the calls below for threads 1 and 2, then everything ends and nothing may be left.
   Otherwise thread 1 (attached) creates slots 2 (and 3); ops as in thread.c, reduced; after all ended, the library is stopped and nothing may be left. */
#include "h.h"
static int h0, a0, alive[VX_MAXT], key_on, dcalls[VX_MAXT], val[VX_MAXT], holds[VX_MAXT], dead; static pthread_key_t key; static pthread_mutex_t rm; static pthread_t id[VX_MAXT], me[VX_MAXT]; static sem_t never;
static void __vx_dt(int t) { VX_ASSERT(val[t], "a destructor runs without a value"); val[t] = 0; dcalls[t]++; }
static void dtor(void *v) { __vx_dt(__vx_tid()); }
static void start(void) { VX_ASSERT(pthread_win32_process_attach_np(), "the library does not start"); }
static void stop(void) { VX_ASSERT(pthread_win32_process_detach_np(), "the library does not stop"); }
static void nothing(const char *d) { CHK(vxw_open_handles, h0, "handles are left behind"); CHK(vxw_allocs, a0, "memory is left behind"); }
static void mkrobust(void) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); CHK(pthread_mutex_init(&rm, &a), 0, "mutex_init"); pthread_mutexattr_destroy(&a); }
static void drop(int owner_died) { int r = pthread_mutex_lock(&rm); CHK(r, owner_died ? EOWNERDEAD : 0, "a robust mutex held by a thread that ended is not handed on once"); if (r) CHK(pthread_mutex_consistent(&rm), 0, "consistent"); CHK(pthread_mutex_unlock(&rm), 0, "unlock"); CHK(pthread_mutex_lock(&rm), 0, "the death of an owner is reported again"); CHK(pthread_mutex_unlock(&rm), 0, "unlock"); }
#ifdef SEQ
static void self_(int t) { int b = vxw_open_handles; pthread_t p = pthread_self(); VX_ASSERT(p.p != 0, "no identity"); if (alive[t]) VX_ASSERT(pthread_equal(p, me[t]), "the identity changes"); else { CHK(vxw_open_handles - b, 2, "handles of an identity"); for (int k = 1; k < VX_MAXT; k++) if (alive[k]) VX_ASSERT(!pthread_equal(p, me[k]), "two live threads have one identity"); } me[t] = p; alive[t] = 1; }
static void leave(int t) { int b = vxw_open_handles, d = dcalls[t], v = val[t]; VX_ASSERT(pthread_win32_thread_detach_np(), "thread detach"); if (alive[t]) { CHK(b - vxw_open_handles, 2, "a thread that leaves does not release its handles once"); CHK(dcalls[t], d + v, "the destructor runs once per value"); if (holds[t]) { holds[t] = 0; dead = 1; } VX_COVER("!left"); } else { CHK(vxw_open_handles, b, "detaching a thread without identity releases handles"); CHK(dcalls[t], d, "a destructor runs without a value"); } alive[t] = 0; val[t] = 0; }
static void step(int t) { __vx_set_tid(t); switch (__vx_nondet("step") % 7) {
  case 0: start(); VX_COVER("!started again"); break;
  case 1: VX_ASSERT(pthread_win32_thread_attach_np(), "thread attach"); self_(t); break;
  case 2: leave(t); break;
  case 3: self_(t); CHK(pthread_setname_np(pthread_self(), "n"), 0, "setname"); break;
  case 4: self_(t); CHK(pthread_setspecific(key, (void *)1), 0, "setspecific"); val[t] = 1; break;
  case 5: self_(t); if (!holds[1] && !holds[2]) { int r = pthread_mutex_lock(&rm); CHK(r, dead ? EOWNERDEAD : 0, "lock"); if (dead) CHK(pthread_mutex_consistent(&rm), 0, "consistent"); dead = 0; holds[t] = 1; VX_COVER("!held"); } break;
  case 6: self_(t); CHK(pthread_detach(pthread_self()), EINVAL, "an implicit thread is detached"); break; } }
void vx_setup(void) { for (int life = 0; life < LIVES; life++) { h0 = vxw_open_handles; a0 = vxw_allocs; __vx_set_tid(1); 
  if (__vx_nondet("bare") & 1) { stop(); VX_ASSERT(pthread_win32_thread_detach_np(), "thread detach"); nothing("stop before start"); start(); stop(); nothing("start and stop"); }
  start(); CHK(pthread_key_create(&key, dtor), 0, "key_create"); mkrobust();
  for (int i = 0; i < STEPS; i++) step(i & 1 ? 1 : 2);
  for (int t = 2; t > 0; t--) { __vx_set_tid(t); leave(t); leave(t); }
  __vx_set_tid(3); self_(3); drop(dead); dead = 0; CHK(pthread_mutex_destroy(&rm), 0, "mutex_destroy"); CHK(pthread_key_delete(key), 0, "key_delete");
  if (__vx_nondet("last thread leaves first") & 1) { leave(3); VX_COVER("!left before the end"); } stop(); nothing("stop"); stop(); VX_ASSERT(pthread_win32_thread_detach_np(), "thread detach after the end"); nothing("stop again"); for (int t = 1; t <= 3; t++) { alive[t] = 0; val[t] = 0; dcalls[t] = 0; } VX_COVER("!done"); } }
#else
static int made[VX_MAXT], cr[VX_MAXT], mayhold;
static void __vx_made(int k) { made[k] = 1; } static void __vx_val(int t) { val[t] = 1; } static void __vx_holds(int t, int h) { mayhold = h; } static void __vx_cr(int k) { cr[k] = 1; }
static void on(void *a) { }
#ifndef AT
#define AT 0
#endif
#ifndef ATINIT
#define ATINIT
#endif
static pthread_attr_t att; static void *body2(void *); static void *body3(void *);
#define C(k) { CHK(pthread_create(&id[k], AT, body##k, (void *)(100 + k)), 0, "pthread_create"); __vx_made(k); }
#define J(k) CHK(pthread_join(id[k], 0), 0, "pthread_join");
#define DT(k) CHK(pthread_detach(id[k]), 0, "pthread_detach");
#define K(k) { __vx_cr(k); int r = pthread_cancel(id[k]); VX_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); }
#define N CHK(pthread_setname_np(pthread_self(), "n"), 0, "setname");
#define V { __vx_val(__vx_tid()); CHK(pthread_setspecific(key, (void *)1), 0, "setspecific"); }
#define L { int r = pthread_mutex_lock(&rm); VX_ASSERT(r == 0 || r == EOWNERDEAD, "lock"); if (r) CHK(pthread_mutex_consistent(&rm), 0, "consistent"); __vx_holds(__vx_tid(), 1); }
#define U { __vx_holds(__vx_tid(), 0); CHK(pthread_mutex_unlock(&rm), 0, "unlock"); }
#define X pthread_exit(0);
#define TC pthread_testcancel();
#define W sem_wait(&never);
#define I { pthread_t p = pthread_self(); VX_ASSERT(pthread_equal(p, pthread_self()), "identity"); }
#define P(s) pthread_cleanup_push(on, 0); s pthread_cleanup_pop(1);
#define OUT pthread_win32_thread_detach_np();
#define Y __vx_yield();
#ifdef B2
static void *body2(void *a) { B2 return 0; }
TH(2) { vx_slot_main(2); }
#else
TH(2) { S2 }
#endif
#ifdef B3
static void *body3(void *a) { B3 return 0; }
TH(3) { vx_slot_main(3); }
#elif defined S3
TH(3) { S3 }
#endif
TH(1) { S1 }
void vx_setup(void) { __vx_set_tid(1); start(); stop(); h0 = vxw_open_handles; a0 = vxw_allocs; start(); CHK(pthread_key_create(&key, dtor), 0, "key_create"); mkrobust(); CHK(sem_init(&never, 0, 0), 0, "sem_init"); pthread_attr_init(&att); ATINIT __vx_set_tid(0); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; VX_COVER("!done");
  for (int k = 1; k <= NT; k++) if (!made[k]) { __vx_set_tid(k); pthread_win32_thread_detach_np(); }
  for (int k = 1; k <= NT; k++) CHK(val[k], 0, "the destructor of a value did not run");
  __vx_set_tid(4); drop(mayhold); CHK(pthread_mutex_destroy(&rm), 0, "mutex_destroy"); CHK(sem_destroy(&never), 0, "sem_destroy"); CHK(pthread_attr_destroy(&att), 0, "attr_destroy"); CHK(pthread_key_delete(key), 0, "key_delete");
  pthread_win32_thread_detach_np(); stop(); nothing("end"); __vx_set_tid(0); }
#endif
