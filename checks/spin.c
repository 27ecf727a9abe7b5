/* C11: spin locks, multi-processor (spinning) and single-processor (mutex) configurations, dynamic and static.
   ops: L lock, T trylock, U unlock, X destroy (by a holder: must be refused), Y yield */
#include "h.h"
extern vx_u64 vxw_proc_mask, vxw_sys_mask;
#ifdef STATIC
static pthread_spinlock_t l = PTHREAD_SPINLOCK_INITIALIZER;
#else
static pthread_spinlock_t l;
#endif
static int owner, act, seen[VX_MAXT];
static void __vx_begin(int t) { seen[t] = act & ~(1 << t); act |= 1 << t; for (int k = 1; k <= NT; k++) if (k != t) seen[k] |= 1 << t; }
static void __vx_idle(int t) { if (owner != t) act &= ~(1 << t); }
static void __vx_acq(int t) { VX_ASSERT(owner == 0, "two threads hold the spin lock"); owner = t; }
static void __vx_rel(int t) { owner = 0; }
static int __vx_mine(int t) { return owner == t; }
static void op_lock(int t) { __vx_begin(t); CHK(pthread_spin_lock(&l), 0, "spin_lock failed"); __vx_acq(t); }
static void op_try(int t) { __vx_begin(t); int mine = __vx_mine(t); int r = pthread_spin_trylock(&l);
  if (mine) { CHK(r, EBUSY, "trylock on a lock held by the caller must give EBUSY"); return; }
  if (r == 0) { __vx_acq(t); VX_COVER("trylock succeeded"); } else { CHK(r, EBUSY, "trylock result is neither 0 nor EBUSY"); VX_ASSERT(seen[t], "trylock gives EBUSY although no other thread used the lock"); __vx_idle(t); } }
static void op_unlock(int t) { if (!__vx_mine(t)) return; __vx_rel(t); CHK(pthread_spin_unlock(&l), 0, "spin_unlock failed"); __vx_idle(t); }
static void op_destroy(int t) { if (__vx_mine(t)) CHK(pthread_spin_destroy(&l), EBUSY, "destroy of a held spin lock must give EBUSY"); }
#define L op_lock(t);
#define T op_try(t);
#define U op_unlock(t);
#define X op_destroy(t);
#define Y __vx_yield();
void vx_setup(void) {
#ifdef UNI
  vxw_proc_mask = 1; vxw_sys_mask = 1;
#endif
  attach(NT > 5 ? 5 : NT);
#ifndef STATIC
  CHK(pthread_spin_init(&l, PTHREAD_PROCESS_PRIVATE), 0, "spin_init");
#else
  static pthread_spinlock_t u = PTHREAD_SPINLOCK_INITIALIZER; __vx_set_tid(1); CHK(pthread_spin_unlock(&u), EPERM, "unlock of a never used spin lock"); CHK(pthread_spin_destroy(&u), 0, "destroy of a never used spin lock"); CHK(pthread_spin_lock(&u), EINVAL, "destroyed static spin lock"); __vx_set_tid(0);
#endif
}
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
void vx_final(void) {
  no_deadlock("threads are blocked on the spin lock and nobody can wake them");
  if (!all_done()) return;
  VX_COVER("!all threads finished");
  __vx_set_tid(1); int t = 1;
  if (owner && owner != 1) { CHK(pthread_spin_trylock(&l), EBUSY, "trylock on a held lock"); return; }
  if (owner == 0) { T VX_ASSERT(owner == 1, "free spin lock cannot be taken"); }
  CHK(pthread_spin_trylock(&l), EBUSY, "trylock on a held lock"); X U
  int a0 = vxw_allocs; CHK(pthread_spin_destroy(&l), 0, "destroy of a free spin lock failed"); VX_ASSERT(vxw_allocs < a0, "destroy leaks memory");
  CHK(pthread_spin_lock(&l), EINVAL, "destroyed spin lock: lock"); CHK(pthread_spin_trylock(&l), EINVAL, "destroyed spin lock: trylock"); CHK(pthread_spin_unlock(&l), EINVAL, "destroyed spin lock: unlock"); CHK(pthread_spin_destroy(&l), EINVAL, "destroyed spin lock: destroy");
  __vx_set_tid(0); }
