/* C03, sequential histories: up to three robust mutexes of any type, two threads, any sequence of lock attempts, unlocks,
   recovery and thread deaths; the whole state is compared with the documented one after every step. */
#include "h.h"
#ifndef STEPS
#define STEPS 6
#endif
#ifndef NM
#define NM 3
#endif
#ifndef K
#define K(k) (int)(__vx_nondet("kind") % 3)
#endif
enum { CONS, DEAD, INCONS, NOTREC };
static pthread_mutex_t m[NM]; static int kind[NM], own[NM], cnt[NM], st[NM], dead[3];
static struct timespec past;
static int attempt(int how, int i) { if (how == 0) return pthread_mutex_trylock(&m[i]); return pthread_mutex_timedlock(&m[i], &past); }
static void got(int t, int i, int r, int how) {
  if (st[i] == NOTREC) { VX_ASSERT(r == ENOTRECOVERABLE, "an unrecoverable robust mutex must give ENOTRECOVERABLE"); return; }
  if (st[i] == DEAD) { VX_ASSERT(r == EOWNERDEAD, "the mutex of a dead owner must be inherited"); own[i] = t; cnt[i] = 1; st[i] = INCONS; VX_COVER("inherited"); return; }
  if (own[i] == 0) { VX_ASSERT(r == 0, "a free robust mutex must be taken"); own[i] = t; cnt[i] = 1; return; }
  if (own[i] == t && kind[i] == PTHREAD_MUTEX_RECURSIVE) { VX_ASSERT(r == 0, "relock of a recursive robust mutex"); cnt[i]++; return; }
  if (own[i] == t && how == 1 && kind[i] == PTHREAD_MUTEX_ERRORCHECK) { VX_ASSERT(r == EDEADLK, "relock of an error checking robust mutex"); return; }
  VX_ASSERT(r == (how == 0 ? EBUSY : ETIMEDOUT), "a held robust mutex must not be taken"); }
static void step1(int t, int op, int i) {
  __vx_set_tid(t);
  if (op == 0 || op == 1) got(t, i, attempt(op, i), op);
  else if (op == 2 || op == 3) { int r = pthread_mutex_unlock(&m[i]); if (own[i] != t) VX_ASSERT(r == EPERM, "unlock of a robust mutex the caller does not hold"); else { VX_ASSERT(r == 0, "unlock by the owner"); if (--cnt[i] == 0) { own[i] = 0; if (st[i] == INCONS) st[i] = NOTREC; } } }
  else if (op == 4) { if (own[i] == t) { int r = pthread_mutex_consistent(&m[i]); VX_ASSERT(r == (st[i] == INCONS ? 0 : EINVAL), "pthread_mutex_consistent"); if (st[i] == INCONS) st[i] = CONS; } }
  else { pthread_win32_thread_detach_np(); dead[t] = 1; for (int k = 0; k < NM; k++) if (own[k] == t) { own[k] = 0; cnt[k] = 0; st[k] = DEAD; VX_COVER("!owner died"); } }
  __vx_set_tid(5); }
static void step_1(int op, int i) { step1(1, op, i); }
static void step_2(int op, int i) { step1(2, op, i); }
static void step(int n) { vx_u32 v = __vx_nondet("op"); int op = (int)(v & 7), i = (int)((v >> 3) & 3), t = 1 + (int)((v >> 5) & 1); VX_ASSUME(i < NM && op < 6 && !dead[t]);
#ifdef ONE
  VX_ASSUME(t == 1);
#endif
  if (t == 1) step_1(op, i); else step_2(op, i); }
void vx_setup(void) { attach(2); past = abs_after(-5); { __vx_set_tid(5); selfs[5] = pthread_self(); __vx_set_tid(1); }
  for (int k = 0; k < NM; k++) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); kind[k] = K(k); pthread_mutexattr_settype(&a, kind[k]); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); CHK(pthread_mutex_init(&m[k], &a), 0, "mutex_init"); pthread_mutexattr_destroy(&a); }
  for (int n = 0; n < STEPS; n++) step(n);
  for (int t = 1; t < 3; t++) if (!dead[t]) { __vx_set_tid(t); pthread_win32_thread_detach_np(); for (int k = 0; k < NM; k++) if (own[k] == t) { own[k] = 0; cnt[k] = 0; st[k] = DEAD; } }
  __vx_set_tid(5);
  for (int k = 0; k < NM; k++) { int was = st[k]; got(5, k, pthread_mutex_trylock(&m[k]), 0); if (st[k] == INCONS) { if (__vx_nondet("recover") & 1) { CHK(pthread_mutex_consistent(&m[k]), 0, "consistent"); st[k] = CONS; VX_COVER("recovered"); } } 
    if (own[k] == 5) { CHK(pthread_mutex_unlock(&m[k]), 0, "unlock"); if (st[k] == INCONS) st[k] = NOTREC; own[k] = 0; got(5, k, pthread_mutex_trylock(&m[k]), 0); } }
  VX_COVER("!done"); }
