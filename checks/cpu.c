/* C25: CPU sets are exact sets; process, thread and attribute affinity is validated, honoured, read back and inherited. */
#include "h.h"
extern vx_u64 vxw_proc_mask, vxw_sys_mask; extern int vxw_procaff_fail; extern unsigned vxw_openproc_err;
static vx_u64 bits(const cpu_set_t *s) { vx_u64 v = 0; for (int i = 0; i < 8; i++) v |= (vx_u64)((const unsigned char *)s)[i] << (8 * i); return v; }
static void put(cpu_set_t *s, vx_u64 v) { for (int i = 0; i < 8; i++) ((unsigned char *)s)[i] = (unsigned char)(v >> (8 * i)); }
static int mem(vx_u64 v, int cpu) { return cpu >= 0 && cpu < 64 && ((v >> (cpu & 63)) & 1); }
static vx_u64 with(vx_u64 v, int cpu) { return cpu >= 0 && cpu < 64 ? v | (1ull << (cpu & 63)) : v; }
static vx_u64 without(vx_u64 v, int cpu) { return cpu >= 0 && cpu < 64 ? v & ~(1ull << (cpu & 63)) : v; }
static int err(int r) { return r == 0 ? 0 : r == -1 ? errno : 9999; }
static void procs(void) { vx_u64 s = __vx_nondet64("system"), p = __vx_nondet64("process"); VX_ASSUME(p != 0 && (p & ~s) == 0); vxw_sys_mask = s; vxw_proc_mask = p; }
#if defined(SETS)
static void __vx_alg(vx_u64 a, vx_u64 b, vx_u64 c, int cpu) { cpu_set_t A, B, D, Z; 
  put(&A, a); put(&B, b); put(&Z, ~0ull); CPU_ZERO(&Z); VX_ASSERT(bits(&Z) == 0, "CPU_ZERO leaves a member"); VX_ASSERT(CPU_COUNT(&Z) == 0, "the empty set has members");
  VX_ASSERT(!CPU_ISSET(cpu, &A) == !mem(a, cpu), "CPU_ISSET"); VX_ASSERT(bits(&A) == a, "a query changed the set");
  CPU_SET(cpu, &A); VX_ASSERT(bits(&A) == with(a, cpu), "CPU_SET does not add exactly that processor"); CPU_CLR(cpu, &A); VX_ASSERT(bits(&A) == without(a, cpu), "CPU_CLR does not remove exactly that processor");
  put(&A, a); CPU_CLR(cpu, &A); VX_ASSERT(bits(&A) == without(a, cpu), "CPU_CLR of a set member"); put(&A, a);
  put(&D, 0x5a5aull); CPU_AND(&D, &A, &B); VX_ASSERT(bits(&D) == (a & b), "CPU_AND"); CPU_OR(&D, &A, &B); VX_ASSERT(bits(&D) == (a | b), "CPU_OR"); CPU_XOR(&D, &A, &B); VX_ASSERT(bits(&D) == (a ^ b), "CPU_XOR");
  VX_ASSERT(!CPU_EQUAL(&A, &B) == !(a == b), "CPU_EQUAL"); VX_ASSERT(bits(&A) == a && bits(&B) == b, "an operation changed a source set");
#define ALIAS(d, x, y) do { vx_u64 o[3] = { a, b, c }; cpu_set_t V[3]; for (int op = 0; op < 3; op++) { for (int k = 0; k < 3; k++) put(&V[k], o[k]); \
    if (op == 0) CPU_AND(&V[d], &V[x], &V[y]); else if (op == 1) CPU_OR(&V[d], &V[x], &V[y]); else CPU_XOR(&V[d], &V[x], &V[y]); \
    vx_u64 want = op == 0 ? o[x] & o[y] : op == 1 ? o[x] | o[y] : o[x] ^ o[y]; \
    for (int k = 0; k < 3; k++) VX_ASSERT(bits(&V[k]) == (k == d ? want : o[k]), "a set operation whose operands are the same set"); VX_ASSERT(!CPU_EQUAL(&V[x], &V[d]) == !((x == d ? want : o[x]) == want), "CPU_EQUAL"); } } while (0)
  for (int d = 0; d < 3; d++) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) ALIAS(d, x, y);
  VX_COVER("!done"); }
void vx_setup(void) { attach(1); __vx_set_tid(1); vx_u64 a = __vx_nondet64("a"), b = __vx_nondet64("b"), c = __vx_nondet64("c"); int cpu = (int)__vx_nondet("cpu"); if (cpu == 63) VX_COVER("!last processor"); if (cpu == 64) VX_COVER("!out of range"); __vx_alg(a, b, c, cpu); }
#elif defined(COUNT)
/* every set contained in a 8-processor window, plus every set whose complement is */
void vx_setup(void) { attach(1); __vx_set_tid(1); vx_u32 w = __vx_nondet("window"); VX_ASSUME(w < 57); vx_u32 x = __vx_nondet("members") & 0xff; int inv = __vx_nondet("complement") & 1, c = 0; for (int i = 0; i < 8; i++) c += (int)((x >> i) & 1); if (inv) c = 64 - c;
  vx_u64 a = (vx_u64)x << w; if (inv) a = ~a; cpu_set_t A; put(&A, a); int n = CPU_COUNT(&A); VX_ASSERT(n == c, "CPU_COUNT differs from the number of members"); VX_ASSERT(bits(&A) == a, "CPU_COUNT changed the set"); VX_COVER("!done"); }
#elif defined(PROCESS)
void vx_setup(void) { attach(1); __vx_set_tid(1); procs(); int h0 = vxw_open_handles; cpu_set_t S, G; vx_u64 want = __vx_nondet64("set"), s = vxw_sys_mask, p = vxw_proc_mask; int pid = (int)__vx_nondet("pid"); 
  CHK(err(sched_getaffinity((pid_t)0, sizeof G, &G)), 0, "sched_getaffinity of the calling process"); VX_ASSERT(bits(&G) == p, "sched_getaffinity differs from the process affinity");
  CHK(err(sched_setaffinity(0, sizeof S, 0)), EFAULT, "NULL set"); CHK(err(sched_getaffinity(0, sizeof S, 0)), EFAULT, "NULL set");
  put(&S, want); int q = __vx_nondet("fault") & 3; vxw_openproc_err = q == 1 ? 5 : q == 2 ? 87 : 0; vxw_procaff_fail = q == 3;
  int r = err(sched_setaffinity((pid_t)pid, sizeof S, &S));
  if (q == 1) { CHK(r, EPERM, "a process that may not be opened gives EPERM"); } else if (q == 2) { CHK(r, ESRCH, "an unknown process gives ESRCH"); } else if (q == 3) { CHK(r, EAGAIN, "unavailable affinity gives EAGAIN"); }
  else if ((want & s) == 0) { CHK(r, EINVAL, "a set without usable processor must be rejected with EINVAL"); VX_COVER("!rejected"); } else { CHK(r, 0, "sched_setaffinity"); p = want & s; VX_COVER("!set"); }
  VX_ASSERT(vxw_proc_mask == p, "process affinity is not the usable part of the set (or changed by a failing call)"); VX_ASSERT(bits(&S) == want, "the caller's set was changed"); VX_ASSERT(vxw_open_handles == h0, "a handle leaks");
  put(&G, 0x77); r = err(sched_getaffinity((pid_t)pid, sizeof G, &G)); if (q == 1) CHK(r, EPERM, "EPERM"); else if (q == 2) CHK(r, ESRCH, "ESRCH"); else if (q == 3) CHK(r, EAGAIN, "EAGAIN"); else { CHK(r, 0, "sched_getaffinity"); VX_ASSERT(bits(&G) == p, "affinity read back differs from what was set"); }
  VX_ASSERT(vxw_open_handles == h0, "a handle leaks"); VX_COVER("!done"); }
#elif defined(THREAD)
/* three threads; any of them sets the affinity of any, twice; a thread is created in between */
static vx_u64 aff[4];
static void setone(int by, int t, vx_u64 want, int n) { cpu_set_t S; put(&S, want); int r = pthread_setaffinity_np(selfs[t], sizeof S, &S); vx_u64 u = want & vxw_proc_mask;
  if (u == 0) CHK(r, EINVAL, "a set without usable processor must be rejected with EINVAL"); else { CHK(r, 0, "pthread_setaffinity_np"); aff[t] = u; VX_COVER("!set"); } }
static void look(void) { for (int t = 1; t < 4; t++) { cpu_set_t G; put(&G, 0); CHK(pthread_getaffinity_np(selfs[t], sizeof G, &G), 0, "pthread_getaffinity_np"); VX_ASSERT(bits(&G) == aff[t], "thread affinity read back differs from what was set"); vx_u64 m = __vxw_taff(t); VX_ASSERT((m ? m : vxw_proc_mask) == aff[t], "the thread does not run on exactly the processors set"); } }
void vx_setup(void) { procs(); attach(3); __vx_set_tid(1); for (int t = 1; t < 4; t++) aff[t] = vxw_proc_mask; look(); CHK(pthread_setaffinity_np(selfs[1], sizeof(cpu_set_t), 0), EFAULT, "NULL set"); CHK(pthread_getaffinity_np(selfs[1], sizeof(cpu_set_t), 0), EFAULT, "NULL set");
  setone(1, 1, __vx_nondet64("set1"), 1); look(); setone(1, 2, __vx_nondet64("set2"), 2); setone(1, 2, __vx_nondet64("set3"), 2); look();
  __vx_set_tid(3); pthread_win32_thread_detach_np(); __vx_set_tid(1); cpu_set_t S; put(&S, vxw_proc_mask); CHK(pthread_setaffinity_np(selfs[3], sizeof S, &S), ESRCH, "setaffinity of an ended thread"); CHK(pthread_getaffinity_np(selfs[3], sizeof S, &S), ESRCH, "getaffinity of an ended thread"); VX_ASSERT(bits(&S) == vxw_proc_mask, "a rejected call stored a result"); 
  pthread_t none; none.p = 0; none.x = 0; CHK(pthread_setaffinity_np(none, sizeof S, &S), ESRCH, "setaffinity of no thread"); CHK(pthread_getaffinity_np(none, sizeof S, &S), ESRCH, "getaffinity of no thread"); VX_COVER("!done"); }
#elif defined(CREATE)
static void *run(void *a) { return a; }
void vx_setup(void) { procs(); attach(1); __vx_set_tid(1); vx_u64 mine = vxw_proc_mask, want = __vx_nondet64("attrset"), own = __vx_nondet64("ownset"), exp; cpu_set_t S, G; pthread_attr_t a; int use = __vx_nondet("attr") & 3;
  if (own & vxw_proc_mask) { put(&S, own); CHK(pthread_setaffinity_np(selfs[1], sizeof S, &S), 0, "setaffinity"); mine = own & vxw_proc_mask; }
  pthread_attr_init(&a); if (use & 1) { put(&S, want); CHK(pthread_attr_setaffinity_np(&a, sizeof S, &S), 0, "attr setaffinity"); put(&G, 0); CHK(pthread_attr_getaffinity_np(&a, sizeof G, &G), 0, "attr getaffinity"); VX_ASSERT(bits(&G) == want, "attribute affinity read back differs"); if (want != 0 && (want & vxw_proc_mask) == 0) { int h0 = vxw_open_handles; selfs[3].p = 0; CHK(pthread_create(&selfs[3], &a, run, 0), EINVAL, "an attribute affinity without usable processor must be rejected with EINVAL"); VX_ASSERT(vxw_open_handles == h0 && vxw_next_slot == 2, "a rejected pthread_create left something behind"); VX_COVER("!rejected"); return; } }
  exp = (use & 1) && want ? want & vxw_proc_mask : mine; 
  CHK(pthread_create(&selfs[2], use ? &a : 0, run, 0), 0, "pthread_create"); put(&G, 0); vx_u64 m = __vxw_taff(2); VX_ASSERT((m ? m : vxw_proc_mask) == exp, "the new thread does not run on the processors of its attributes or of its creator");
  CHK(pthread_getaffinity_np(selfs[2], sizeof G, &G), 0, "getaffinity"); VX_ASSERT(bits(&G) == exp, "affinity of the new thread differs from that of its attributes or of its creator"); m = __vxw_taff(2); VX_ASSERT((m ? m : vxw_proc_mask) == exp, "reading the affinity changed it");
  put(&G, 0); CHK(pthread_getaffinity_np(selfs[1], sizeof G, &G), 0, "getaffinity"); VX_ASSERT(bits(&G) == mine, "the creator's affinity changed"); VX_COVER("!done"); }
#endif
