/* C15/C16: thread-specific data. Destructors do what the solver picks: nothing, store again, store under the next key, delete a key. */
#include "h.h"
extern char __vx_dummy;
#ifndef NK
#define NK 3
#endif
static pthread_key_t key[NK]; static int live[NK], hasd[NK];
static void *gv[VX_MAXT][NK]; /* what each thread stored last */
static int exiting[VX_MAXT], calls[VX_MAXT], kcalls[VX_MAXT][NK], late[VX_MAXT][NK]; /* late: began to exit after the key was deleted */
static int deleted[NK], base;
#ifndef ACTS
#define ACTS 3
#endif
static void __vx_enter(int k, void *v) { int t = __vx_tid(); VX_ASSERT(exiting[t], "a destructor runs in a thread that is not exiting"); VX_ASSERT(v != 0, "a destructor is called with NULL"); VX_ASSERT(hasd[k], "a destructor that was never given is called"); VX_ASSERT(!late[t][k], "the destructor of a key deleted before the thread began to exit");
  if (live[k]) VX_ASSERT(gv[t][k] == v, "a destructor is called with a value its thread did not store last"); gv[t][k] = 0; calls[t]++; kcalls[t][k]++; VX_ASSERT(kcalls[t][k] <= PTHREAD_DESTRUCTOR_ITERATIONS, "a destructor is called more often than PTHREAD_DESTRUCTOR_ITERATIONS"); VX_COVER("!destructor"); if (kcalls[t][k] == PTHREAD_DESTRUCTOR_ITERATIONS) VX_COVER("all passes used"); }
static void __vx_stored(int k, void *v) { gv[__vx_tid()][k] = v; }
static void __vx_begin_delete(int k) { live[k] = 0; for (int t = 0; t < VX_MAXT; t++) gv[t][k] = 0; }
static void __vx_deleted(int k) { deleted[k] = 1; }
static void __vx_begin_exit(void) { int t = __vx_tid(); exiting[t] = 1; for (int k = 0; k < NK; k++) late[t][k] = deleted[k]; for (int k = 0; k < NK; k++) kcalls[t][k] = 0; calls[t] = 0; }
static void __vx_after_exit(void) { int t = __vx_tid(), left = 0; for (int k = 0; k < NK; k++) { if (live[k] && hasd[k] && gv[t][k]) left = 1; if (hasd[k]) gv[t][k] = 0; } VX_ASSERT(!left || calls[t] >= PTHREAD_DESTRUCTOR_ITERATIONS, "a value is left although its destructor could have been called"); exiting[t] = 0; VX_COVER("!exited"); }
static void *val(void) { return (void *)(long long)(__vx_nondet("value") & 3); }
static void put(int k, void *v) { CHK(pthread_setspecific(key[k], v), 0, "pthread_setspecific"); __vx_stored(k, v); }
static int __vx_is(int k, void *v) { return gv[__vx_tid()][k] == v; }
static void get(int k) { VX_ASSERT(__vx_is(k, pthread_getspecific(key[k])), "the value read is not the one this thread stored last"); }
static void del(int k) { __vx_begin_delete(k); CHK(pthread_key_delete(key[k]), 0, "pthread_key_delete"); __vx_deleted(k); }
#ifdef PLAIN /* destructors that do nothing */
#ifdef DA /* the destructor of key 0 deletes key DA, once */
static int __vx_claim(void) { static int c; return !c++; }
#define ACT(k) if (k == 0 && __vx_claim()) del(DA);
#else
#define ACT(k)
#endif
#else
static void act(int k) { if (live[k]) CHK(pthread_getspecific(key[k]), 0, "the value is not NULL while its destructor runs"); unsigned a = __vx_nondet("act") % ACTS;
  if (a == 1 && live[k]) put(k, (void *)1); 
  if (a == 2 && live[(k + 1) % NK]) put((k + 1) % NK, (void *)2);
  if (a == 3 && live[(k + 2) % NK]) put((k + 2) % NK, (void *)3);
  if (a == 4 && live[(k + 1) % NK]) { del((k + 1) % NK); VX_COVER("destructor deletes a key"); }
  if (a == 5 && live[k]) { del(k); VX_COVER("destructor deletes its own key"); } }
#define ACT(k) act(k);
#endif
static void d0(void *v) { __vx_enter(0, v); ACT(0) }
static void d1(void *v) { __vx_enter(1, v); ACT(1) }
static void d2(void *v) { __vx_enter(2, v); ACT(2) }
static void (*const D[NK])(void *) = { d0, d1, d2 };
static void mk(int k, int d) { hasd[k] = d; CHK(pthread_key_create(&key[k], d ? D[k] : 0), 0, "pthread_key_create"); live[k] = 1; deleted[k] = 0; }
static void leave(void) { __vx_begin_exit(); pthread_win32_thread_detach_np(); __vx_after_exit(); }
#if defined(SEQ)
#ifndef DSET
#define DSET 7
#endif
void vx_setup(void) { attach(2); base = vxw_allocs; for (int k = 0; k < NK; k++) { mk(k, (DSET >> k) & 1); }
  __vx_set_tid(1); for (int k = 0; k < NK; k++) get(k); __vx_set_tid(2); for (int k = 0; k < NK; k++) get(k);
  __vx_set_tid(1); for (int k = 0; k < NK; k++) { put(k, val()); } put(0, val()); __vx_set_tid(2); put(0, val()); put(1, val()); for (int k = 0; k < NK; k++) get(k); __vx_set_tid(1); for (int k = 0; k < NK; k++) get(k);
  leave(); for (int k = 0; k < NK; k++) if (live[k]) get(k); /* a new identity starts with nothing */
  __vx_set_tid(2); for (int k = 0; k < NK; k++) if (live[k]) get(k);
#ifdef NEWKEY
  if (live[1]) del(1); mk(1, 1); get(1); __vx_set_tid(1); get(1); __vx_set_tid(2);
#endif
  leave(); for (int k = 0; k < NK; k++) if (live[k]) del(k); CHK(vxw_allocs, base, "memory is leaked or lost"); VX_COVER("!done"); }
#else
#define P(k) put(k, val());
#define V(k) put(k, (void *)(long long)(T * 8 + k + 1));
#define N(k) put(k, 0);
#define G(k) get(k);
#define E leave();
#define X(k) del(k);
#define C(k) mk(k, 1);
#define Y __vx_yield();
#ifdef S1
TH(1) { enum { T = 1 }; S1 }
#endif
#ifdef S2
TH(2) { enum { T = 2 }; S2 }
#endif
#ifdef S3
TH(3) { enum { T = 3 }; S3 }
#endif
#ifdef REALT /* thread 2 is created by the library and ends by the given route */
static pthread_t th; static void *retval; static sem_t never;
#define BX pthread_exit((void *)5); VX_ASSERT(0, "pthread_exit returned");
#define BC sem_wait(&never); VX_ASSERT(0, "the thread was not cancelled");
static void *body(void *a) { for (int k = 0; k < NK; k++) get(k); for (int k = 0; k < NK; k++) put(k, val()); for (int k = 0; k < NK; k++) get(k); __vx_begin_exit(); BODY return a; }
#ifndef AFTER
#define AFTER
#endif
#define AC CHK(pthread_cancel(th), 0, "cancel");
TH(1) { CHK(pthread_create(&th, 0, body, 0), 0, "create"); AFTER CHK(pthread_join(th, &retval), 0, "join"); }
TH(2) { vx_slot_main(2); }
void vx_setup(void) { attach(1); sem_init(&never, 0, 0); for (int k = 0; k < NK; k++) mk(k, 1); __vx_set_tid(0); }
static void __vx_ended(void) { for (int k = 0; k < NK; k++) VX_ASSERT(!gv[2][k] || calls[2] >= PTHREAD_DESTRUCTOR_ITERATIONS, "a value is left although its destructor could have been called"); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; __vx_ended(); __vx_set_tid(1); for (int k = 0; k < NK; k++) del(k); VX_COVER("!done"); }
#else
#ifndef INIT
#define INIT
#endif
#ifndef FINI
#define FINI
#endif
void vx_setup(void) { attach(NT); base = vxw_allocs; for (int k = 0; k < NK; k++) mk(k, 1); INIT __vx_set_tid(0); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; VX_COVER("!done"); for (int t = 1; t <= NT; t++) { __vx_set_tid(t); leave(); } __vx_set_tid(1); for (int k = 0; k < NK; k++) if (live[k]) del(k); leave(); CHK(vxw_allocs, base, "memory is leaked or lost"); }
#endif
#endif
