/* C14: the internal queue lock. Nodes and lock live in heap blocks that are freed as soon as their owner may.
   ops: A acquire, T try, R release, H hand over to another record, Y yield */
#include "h.h"
#include "config.h"
#include "implement.h"
static ptw32_mcs_lock_t lock;
static ptw32_mcs_local_node_t *node[VX_MAXT]; static int has[VX_MAXT], owner, before[VX_MAXT][VX_MAXT], waiting[VX_MAXT], h0, act, seen[VX_MAXT];
static void __vx_begin(int t) { seen[t] = act & ~(1 << t); act |= 1 << t; for (int k = 1; k <= NT; k++) if (k != t) seen[k] |= 1 << t; }
static void __vx_idle(int t) { if (owner != t) act &= ~(1 << t); }
/* threads already queued when t starts: their record is the tail, or they wait for longer than the tail */
static void __vx_arrive(int t) { for (int k = 1; k <= NT; k++) before[t][k] = 0; for (int k = 1; k <= NT; k++) if (k != t && waiting[k] && lock == (void *)node[k]) { before[t][k] = 1; for (int j = 1; j <= NT; j++) if (before[k][j] && waiting[j]) before[t][j] = 1; } waiting[t] = 1; }
static void __vx_acq(int t, int q) { VX_ASSERT(owner == 0, "two threads hold the lock"); owner = t; if (q) { waiting[t] = 0; for (int k = 1; k <= NT; k++) { VX_ASSERT(!before[t][k] || !waiting[k], "the lock was not granted in arrival order"); before[t][k] = 0; } } for (int k = 1; k <= NT; k++) before[k][t] = 0; }
static void __vx_rel(int t) { owner = 0; }
static void acquire(int t) { if (has[t]) return; __vx_begin(t); node[t] = (ptw32_mcs_local_node_t *)malloc(sizeof *node[t]); __vx_arrive(t); ptw32_mcs_lock_acquire(&lock, node[t]); __vx_acq(t, 1); has[t] = 1; }
static void try_(int t) { if (has[t]) return; __vx_begin(t); node[t] = (ptw32_mcs_local_node_t *)malloc(sizeof *node[t]); int r = ptw32_mcs_lock_try_acquire(&lock, node[t]);
  if (r == 0) { __vx_acq(t, 0); has[t] = 1; VX_COVER("try succeeded"); } else { CHK(r, EBUSY, "try result"); VX_ASSERT(seen[t], "try fails on a free lock"); free(node[t]); node[t] = 0; __vx_idle(t); VX_COVER("try refused"); } }
static void release(int t) { if (!has[t]) return; has[t] = 0; __vx_rel(t); ptw32_mcs_lock_release(node[t]); free(node[t]); node[t] = 0; __vx_idle(t); }
static void transfer(int t) { if (!has[t]) return; ptw32_mcs_local_node_t *n = (ptw32_mcs_local_node_t *)malloc(sizeof *n); ptw32_mcs_node_transfer(n, node[t]); free(node[t]); node[t] = n; }
#define A acquire(t);
#define T try_(t);
#define R release(t);
#define H transfer(t);
#define Y __vx_yield();
void vx_setup(void) { attach(NT); h0 = vxw_open_handles; }
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
#ifdef S4
TH(4) { int t = 4; S4 }
#endif
void vx_final(void) {
  no_deadlock("a waiter of the queue lock is never granted it");
  if (!all_done()) return;
  VX_COVER("!all threads finished");
  VX_ASSERT(owner == 0, "lock still held"); VX_ASSERT(vxw_open_handles == h0, "kernel handles of the queue lock are leaked");
  int t = 1; __vx_set_tid(1); T VX_ASSERT(has[1], "free lock cannot be taken"); R A R __vx_set_tid(0); }
