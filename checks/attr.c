/* C24: attribute objects against a shadow record, for every value given to every setter.
   Sequence: init, defaults, then a symbolic choice of setter with a symbolic value, twice; after each all getters must agree with the shadow. */
#include "h.h"
extern vx_u64 vxw_proc_mask, vxw_sys_mask;
#ifdef THREADATTR
static pthread_attr_t a, none; static int sv_detach, sv_inh, sv_prio; static size_t sv_stack; static vx_u64 sv_cpu;
static vx_u64 bits(const cpu_set_t *s) { vx_u64 v = 0; for (int i = 0; i < (int)sizeof(cpu_set_t); i++) v |= (vx_u64)((const unsigned char *)s)[i] << (8 * i); return v; }
static void check(void) { int i = -77; size_t z = 77; struct sched_param p; cpu_set_t c; void *q = 0; p.sched_priority = -77; CPU_ZERO(&c);
  CHK(pthread_attr_getdetachstate(&a, &i), 0, "getdetachstate"); CHK(i, sv_detach, "detach state differs from what was set");
  i = -77; CHK(pthread_attr_getinheritsched(&a, &i), 0, "getinheritsched"); CHK(i, sv_inh, "inheritsched differs from what was set");
  CHK(pthread_attr_getschedparam(&a, &p), 0, "getschedparam"); CHK(p.sched_priority, sv_prio, "priority differs from what was set");
  i = -77; CHK(pthread_attr_getschedpolicy(&a, &i), 0, "getschedpolicy"); CHK(i, SCHED_OTHER, "policy");
  i = -77; CHK(pthread_attr_getscope(&a, &i), 0, "getscope"); CHK(i, PTHREAD_SCOPE_SYSTEM, "scope");
  CHK(pthread_attr_getstacksize(&a, &z), 0, "getstacksize"); CHK(z, sv_stack, "stack size differs from what was set");
  CHK(pthread_attr_getstackaddr(&a, &q), ENOSYS, "getstackaddr is not supported");
  CHK(pthread_attr_getaffinity_np(&a, sizeof c, &c), 0, "getaffinity"); VX_ASSERT(bits(&c) == sv_cpu, "affinity differs from what was set"); }
static void step(void) { int v = (int)__vx_nondet("value"); vx_u64 w = __vx_nondet64("wide"); int r; struct sched_param p; cpu_set_t c;
  switch (__vx_nondet("setter") & 7) {
    case 0: r = pthread_attr_setdetachstate(&a, v); if (v == PTHREAD_CREATE_JOINABLE || v == PTHREAD_CREATE_DETACHED) { CHK(r, 0, "legal detach state rejected"); sv_detach = v; } else { CHK(r, EINVAL, "illegal detach state must give EINVAL"); VX_COVER("illegal detach state"); } break;
    case 1: r = pthread_attr_setinheritsched(&a, v); if (v == PTHREAD_INHERIT_SCHED || v == PTHREAD_EXPLICIT_SCHED) { CHK(r, 0, "legal inheritsched rejected"); sv_inh = v; } else CHK(r, EINVAL, "illegal inheritsched must give EINVAL"); break;
    case 2: p.sched_priority = v; r = pthread_attr_setschedparam(&a, &p); if (v >= sched_get_priority_min(SCHED_OTHER) && v <= sched_get_priority_max(SCHED_OTHER)) { CHK(r, 0, "legal priority rejected"); sv_prio = v; VX_COVER("priority stored"); } else CHK(r, EINVAL, "illegal priority must give EINVAL"); break;
    case 3: r = pthread_attr_setschedpolicy(&a, v); if (v == SCHED_OTHER) CHK(r, 0, "SCHED_OTHER rejected"); else VX_ASSERT(r == ENOTSUP || r == EINVAL, "unsupported policy must be rejected"); if (v == SCHED_FIFO || v == SCHED_RR) CHK(r, ENOTSUP, "real-time policies are not supported"); break;
    case 4: r = pthread_attr_setscope(&a, v); if (v == PTHREAD_SCOPE_SYSTEM) CHK(r, 0, "system scope rejected"); else if (v == PTHREAD_SCOPE_PROCESS) CHK(r, ENOTSUP, "process scope is not supported"); else CHK(r, EINVAL, "illegal scope must give EINVAL"); break;
    case 5: r = pthread_attr_setstacksize(&a, (size_t)w); CHK(r, 0, "stack size rejected"); sv_stack = (size_t)w; break;
    case 6: for (int i = 0; i < (int)sizeof c; i++) ((unsigned char *)&c)[i] = (unsigned char)(w >> (8 * i)); r = pthread_attr_setaffinity_np(&a, sizeof c, &c); CHK(r, 0, "affinity rejected"); sv_cpu = w; break;
    default: CHK(pthread_attr_setstackaddr(&a, (void *)w), ENOSYS, "setstackaddr is not supported"); break; } }
static void bad(pthread_attr_t *x) { int i = 5; size_t z = 5; struct sched_param p; cpu_set_t c; char b[8] = "abc"; p.sched_priority = 0; CPU_ZERO(&c);
  CHK(pthread_attr_destroy(x), EINVAL, "destroy of an invalid object"); CHK(pthread_attr_setdetachstate(x, PTHREAD_CREATE_DETACHED), EINVAL, "setdetachstate on an invalid object"); CHK(pthread_attr_getdetachstate(x, &i), EINVAL, "getdetachstate on an invalid object");
  CHK(pthread_attr_setinheritsched(x, PTHREAD_INHERIT_SCHED), EINVAL, "setinheritsched on an invalid object"); CHK(pthread_attr_getinheritsched(x, &i), EINVAL, "getinheritsched on an invalid object");
  CHK(pthread_attr_setschedparam(x, &p), EINVAL, "setschedparam on an invalid object"); CHK(pthread_attr_getschedparam(x, &p), EINVAL, "getschedparam on an invalid object");
  CHK(pthread_attr_setschedpolicy(x, SCHED_OTHER), EINVAL, "setschedpolicy on an invalid object"); CHK(pthread_attr_getschedpolicy(x, &i), EINVAL, "getschedpolicy on an invalid object");
  CHK(pthread_attr_setscope(x, PTHREAD_SCOPE_SYSTEM), EINVAL, "setscope on an invalid object"); CHK(pthread_attr_getscope(x, &i), EINVAL, "getscope on an invalid object");
  CHK(pthread_attr_setstacksize(x, 4096), EINVAL, "setstacksize on an invalid object"); CHK(pthread_attr_getstacksize(x, &z), EINVAL, "getstacksize on an invalid object");
  CHK(pthread_attr_setaffinity_np(x, sizeof c, &c), EINVAL, "setaffinity on an invalid object"); CHK(pthread_attr_getaffinity_np(x, sizeof c, &c), EINVAL, "getaffinity on an invalid object");
  CHK(pthread_attr_setname_np(x, "n"), EINVAL, "setname on an invalid object"); CHK(pthread_attr_getname_np(x, b, sizeof b), EINVAL, "getname on an invalid object");
  VX_ASSERT(i == 5 && z == 5 && b[0] == 'a', "a rejected call stored a result"); }
void vx_setup(void) { attach(1); __vx_set_tid(1); int n0 = vxw_allocs;
  CHK(pthread_attr_init(0), EINVAL, "init of NULL"); CHK(pthread_attr_init(&a), 0, "attr_init");
  sv_detach = PTHREAD_CREATE_JOINABLE; sv_inh = PTHREAD_EXPLICIT_SCHED; sv_prio = 0; sv_stack = 0; sv_cpu = 0;
  check(); step(); check(); step(); check();
  CHK(pthread_attr_setaffinity_np(&a, 8, 0), EINVAL, "NULL cpu set"); CHK(pthread_attr_setschedparam(&a, 0), EINVAL, "NULL parameters"); check();
  CHK(pthread_attr_destroy(&a), 0, "attr_destroy"); VX_ASSERT(vxw_allocs == n0, "destroy leaks memory"); bad(&a); bad(&none); bad(0); VX_COVER("!done"); }
#else
/* mutex, condition, barrier and rwlock attributes */
static pthread_mutexattr_t m, m0; static pthread_condattr_t c, c0; static pthread_barrierattr_t b, b0; static pthread_rwlockattr_t w, w0;
static int kind, robust, ps[4];
static void check(void) { int i;
  i = -7; CHK(pthread_mutexattr_gettype(&m, &i), 0, "gettype"); CHK(i, kind, "mutex type differs from what was set"); i = -7; CHK(pthread_mutexattr_getkind_np(&m, &i), 0, "getkind_np"); CHK(i, kind, "mutex kind differs from what was set");
  i = -7; CHK(pthread_mutexattr_getrobust(&m, &i), 0, "getrobust"); CHK(i, robust, "robustness differs from what was set");
  i = -7; CHK(pthread_mutexattr_getpshared(&m, &i), 0, "mutexattr getpshared"); CHK(i, ps[0], "mutex pshared differs from what was set");
  i = -7; CHK(pthread_condattr_getpshared(&c, &i), 0, "condattr getpshared"); CHK(i, ps[1], "cond pshared differs from what was set");
  i = -7; CHK(pthread_barrierattr_getpshared(&b, &i), 0, "barrierattr getpshared"); CHK(i, ps[2], "barrier pshared differs from what was set");
  i = -7; CHK(pthread_rwlockattr_getpshared(&w, &i), 0, "rwlockattr getpshared"); CHK(i, ps[3], "rwlock pshared differs from what was set"); }
#define PS(f, o, k) r = f(o, v); if (v == PTHREAD_PROCESS_PRIVATE) { CHK(r, 0, #f ": private rejected"); ps[k] = v; } else if (v == PTHREAD_PROCESS_SHARED) { if (r == 0) ps[k] = v; /* may also be refused as unsupported */ } else CHK(r, EINVAL, #f ": illegal value must give EINVAL");
static void step(void) { int v = (int)__vx_nondet("value"), r;
  switch (__vx_nondet("setter") & 7) {
    case 0: r = pthread_mutexattr_settype(&m, v); if (v == PTHREAD_MUTEX_NORMAL || v == PTHREAD_MUTEX_RECURSIVE || v == PTHREAD_MUTEX_ERRORCHECK) { CHK(r, 0, "legal type rejected"); kind = v; VX_COVER("type stored"); } else CHK(r, EINVAL, "illegal type must give EINVAL"); break;
    case 1: r = pthread_mutexattr_setkind_np(&m, v); if (v == PTHREAD_MUTEX_NORMAL || v == PTHREAD_MUTEX_RECURSIVE || v == PTHREAD_MUTEX_ERRORCHECK) { CHK(r, 0, "legal kind rejected"); kind = v; } else CHK(r, EINVAL, "illegal kind must give EINVAL"); break;
    case 2: r = pthread_mutexattr_setrobust(&m, v); if (v == PTHREAD_MUTEX_ROBUST || v == PTHREAD_MUTEX_STALLED) { CHK(r, 0, "legal robustness rejected"); robust = v; } else CHK(r, EINVAL, "illegal robustness must give EINVAL"); break;
    case 3: PS(pthread_mutexattr_setpshared, &m, 0) break;
    case 4: PS(pthread_condattr_setpshared, &c, 1) break;
    case 5: PS(pthread_barrierattr_setpshared, &b, 2) break;
    case 6: PS(pthread_rwlockattr_setpshared, &w, 3) break;
    default: break; } }
static void badm(pthread_mutexattr_t *x) { int i = 5; CHK(pthread_mutexattr_destroy(x), EINVAL, "mutexattr_destroy invalid"); CHK(pthread_mutexattr_settype(x, PTHREAD_MUTEX_NORMAL), EINVAL, "settype invalid"); CHK(pthread_mutexattr_gettype(x, &i), EINVAL, "gettype invalid"); CHK(pthread_mutexattr_setkind_np(x, PTHREAD_MUTEX_NORMAL), EINVAL, "setkind invalid"); CHK(pthread_mutexattr_getkind_np(x, &i), EINVAL, "getkind invalid");
  CHK(pthread_mutexattr_setrobust(x, PTHREAD_MUTEX_ROBUST), EINVAL, "setrobust invalid"); CHK(pthread_mutexattr_getrobust(x, &i), EINVAL, "getrobust invalid"); CHK(pthread_mutexattr_setpshared(x, PTHREAD_PROCESS_PRIVATE), EINVAL, "setpshared invalid"); CHK(pthread_mutexattr_getpshared(x, &i), EINVAL, "getpshared invalid"); CHK(i, 5, "a rejected getter stored a result"); }
#define BAD(T, o) { int i = 5; CHK(pthread_##T##attr_destroy(o), EINVAL, #T "attr_destroy invalid"); CHK(pthread_##T##attr_setpshared(o, PTHREAD_PROCESS_PRIVATE), EINVAL, #T "attr_setpshared invalid"); CHK(pthread_##T##attr_getpshared(o, &i), EINVAL, #T "attr_getpshared invalid"); CHK(i, 5, #T ": a rejected getter stored a result"); }
void vx_setup(void) { attach(1); __vx_set_tid(1); int n0 = vxw_allocs; 
  CHK(pthread_mutexattr_init(&m), 0, "mutexattr_init"); CHK(pthread_condattr_init(&c), 0, "condattr_init"); CHK(pthread_barrierattr_init(&b), 0, "barrierattr_init"); CHK(pthread_rwlockattr_init(&w), 0, "rwlockattr_init");
  kind = PTHREAD_MUTEX_DEFAULT; robust = PTHREAD_MUTEX_STALLED; check(); step(); check(); step(); check();
  CHK(pthread_mutexattr_gettype(&m, 0), EINVAL, "NULL result pointer"); CHK(pthread_mutexattr_getpshared(&m, 0), EINVAL, "NULL result pointer");
  CHK(pthread_mutexattr_destroy(&m), 0, "mutexattr_destroy"); CHK(pthread_condattr_destroy(&c), 0, "condattr_destroy"); CHK(pthread_barrierattr_destroy(&b), 0, "barrierattr_destroy"); CHK(pthread_rwlockattr_destroy(&w), 0, "rwlockattr_destroy"); VX_ASSERT(vxw_allocs == n0, "destroy leaks memory");
  badm(&m); badm(&m0); badm(0); BAD(cond, &c) BAD(cond, &c0) BAD(cond, (pthread_condattr_t *)0) BAD(barrier, &b) BAD(barrier, &b0) BAD(barrier, (pthread_barrierattr_t *)0) BAD(rwlock, &w) BAD(rwlock, &w0) BAD(rwlock, (pthread_rwlockattr_t *)0) VX_COVER("!done"); }
#endif
