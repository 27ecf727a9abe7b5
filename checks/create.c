/* C22: pthread_create runs the routine once with what was asked, or not at all */
#include "h.h"
static pthread_t id[VX_MAXT]; static int made[VX_MAXT], ran[VX_MAXT], slot[VX_MAXT], hbase, abase, wantd, wantp, wantn, setn; static vx_u64 arg, rv, wanta; static pthread_t me[VX_MAXT]; static void *got[VX_MAXT]; static pthread_attr_t att; static char nm[4], wantc;
static int __vx_ran(int w, pthread_t p) { VX_ASSERT(!ran[w], "the start routine runs twice"); ran[w] = 1; me[w] = p; slot[w] = __vx_tid(); return 0; }
static void __vx_made(int w) { made[w] = 1; }
static void __vx_check(int w) { VX_ASSERT(ran[w], "pthread_join returned before the routine ran"); VX_ASSERT(me[w].p == id[w].p && me[w].x == id[w].x, "the identity given to the creator is not the routine's own"); }
static int __vx_hasrun(int w) { return ran[w]; }
#if defined(FULL) /* every combination of attributes */
static void *body(void *a) { pthread_t s = pthread_self(); __vx_ran(1, s); VX_ASSERT(a == (void *)arg, "the start routine does not get its argument"); int pol = -1; struct sched_param p; p.sched_priority = 99;
  CHK(pthread_getschedparam(s, &pol, &p), 0, "getschedparam"); CHK(p.sched_priority, wantp, "the priority asked for"); CHK(__vxw_tprio(2), wantp < -2 ? (wantp == -15 ? -15 : -2) : wantp > 2 ? (wantp == 15 ? 15 : 2) : wantp, "the system's priority of the new thread");
  if (wanta) CHK(__vxw_taff(2), wanta, "the affinity asked for"); char b[8]; b[0] = 'z'; CHK(pthread_getname_np(s, b, 8), 0, "getname"); CHK(b[0], setn ? wantc : 0, "the name asked for"); return (void *)rv; }
TH(1) { CHK(pthread_create(&id[1], &att, body, (void *)arg), 0, "pthread_create"); nm[0] = '!'; pthread_attr_destroy(&att); __vx_made(1); if (wantd == PTHREAD_CREATE_JOINABLE) { void *v = 0; CHK(pthread_join(id[1], &v), 0, "join"); VX_ASSERT(v == (void *)rv, "the joiner does not get the routine's value"); __vx_check(1); } else { int r = pthread_join(id[1], 0); VX_ASSERT(r == EINVAL || r == ESRCH, "a thread created detached can be joined"); } }
TH(2) { vx_slot_main(2); }
void vx_setup(void) { attach(1); __vx_set_tid(4); pthread_self(); pthread_win32_thread_detach_np(); __vx_set_tid(1); hbase = vxw_open_handles; abase = vxw_allocs; arg = __vx_nondet64("arg"); rv = __vx_nondet64("value"); struct sched_param p; cpu_set_t cs;
  pthread_attr_init(&att); wantd = __vx_nondet("detached") & 1 ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE; CHK(pthread_attr_setdetachstate(&att, wantd), 0, "setdetachstate");
  if (__vx_nondet("setp") & 1) { wantp = (int)(__vx_nondet("prio") % 31) - 15; p.sched_priority = wantp; CHK(pthread_attr_setschedparam(&att, &p), 0, "setschedparam"); }
  if (__vx_nondet("seta") & 1) { wanta = (__vx_nondet("aff") & 15) | 1; CPU_ZERO(&cs); for (int i = 0; i < 4; i++) if ((wanta >> i) & 1) CPU_SET(i, &cs); CHK(pthread_attr_setaffinity_np(&att, sizeof cs, &cs), 0, "setaffinity"); }
  if (__vx_nondet("setn") & 1) { setn = 1; wantc = nm[0] = 'a' + __vx_nondet("name") % 26; CHK(pthread_attr_setname_np(&att, nm), 0, "setname"); } __vx_set_tid(0); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; VX_ASSERT(ran[1], "the routine did not run"); if (wantd == PTHREAD_CREATE_DETACHED) VX_COVER("!detached"); else VX_COVER("!joined"); __vx_set_tid(1); CHK(vxw_open_handles, hbase, "handles are leaked or lost"); CHK(vxw_allocs, abase, "memory is leaked or lost"); __vx_set_tid(0); }
#elif defined(FAILS) /* a failing creation leaves nothing, and can be repeated */
static void *body(void *a) { __vx_ran(1, pthread_self()); return a; }
TH(1) { if (made[1]) { void *v = 0; CHK(pthread_join(id[1], &v), 0, "join"); CHK(v, (void *)5, "value"); __vx_check(1); } }
TH(2) { vx_slot_main(2); }
void vx_setup(void) { attach(1); __vx_set_tid(4); pthread_self(); pthread_win32_thread_detach_np(); __vx_set_tid(1); int use = __vx_nondet("attr") & 1, r; pthread_attr_init(&att); if (__vx_nondet("setn") & 1) { setn = 1; CHK(pthread_attr_setname_np(&att, "n"), 0, "setname"); } pthread_t old = id[1]; hbase = vxw_open_handles; abase = vxw_allocs;
  vxw_alloc_fail_budget = ALLOCF; vxw_obj_fail_budget = OBJF; vxw_thread_fail_budget = THRF; r = pthread_create(&id[1], use ? &att : 0, body, (void *)5); vxw_alloc_fail_budget = vxw_obj_fail_budget = vxw_thread_fail_budget = 0;
  if (r) { VX_ASSERT(r == EAGAIN || r == ENOMEM, "pthread_create reports another error for lack of resources"); CHK(vxw_created[2], 0, "a thread runs although its creation failed"); CHK(vxw_open_handles, hbase, "a failed pthread_create leaks handles"); CHK(vxw_allocs, abase, "a failed pthread_create leaks memory"); VX_COVER("!failed"); CHK(pthread_create(&id[1], use ? &att : 0, body, (void *)5), 0, "pthread_create does not succeed when resources are back"); } else VX_ASSERT(vxw_created[2] && vxw_resumed[2], "no thread runs although creation succeeded");
  char b[4]; b[0] = 'z'; CHK(pthread_getname_np(id[1], b, 4), 0, "getname"); CHK(b[0], use && setn ? 'n' : 0, "the thread was created without its name"); CHK(vxw_created[3], 0, "two threads were created"); pthread_attr_destroy(&att); abase = vxw_allocs; made[1] = 1; __vx_set_tid(0); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; VX_ASSERT(ran[1], "the routine did not run"); VX_COVER("!done"); CHK(vxw_open_handles, hbase, "handles are leaked or lost"); __vx_set_tid(0); }
#else /* concurrent creators */
#ifndef BODY
#define BODY
#endif
static void create(int); static void join(int);
static void *body(void *a) { int w = (int)(long long)a; __vx_ran(w, pthread_self()); BODY return (void *)(300LL + w); }
static void create(int w) { CHK(pthread_create(&id[w], 0, body, (void *)(long long)w), 0, "pthread_create"); __vx_made(w); }
static void join(int w) { void *v = 0; CHK(pthread_join(id[w], &v), 0, "pthread_join"); CHK(v, (void *)(300LL + w), "the joiner does not get the routine's value"); __vx_check(w); }
TH(1) { S1 }
TH(2) { vx_slot_main(2); }
TH(3) { vx_slot_main(3); }
#ifdef S4
TH(4) { S4 }
#endif
void vx_setup(void) { attach(4); pthread_t stale = selfs[1]; __vx_set_tid(2); pthread_win32_thread_detach_np(); __vx_set_tid(3); pthread_win32_thread_detach_np(); hbase = vxw_open_handles; abase = vxw_allocs; __vx_set_tid(0); }
void vx_final(void) { no_deadlock("threads are stuck"); if (!all_done()) return; VX_COVER("!done"); VX_ASSERT(ran[1] && ran[2], "a routine did not run"); VX_ASSERT(slot[1] != slot[2], "one thread ran both routines"); CHK(vxw_open_handles, hbase, "handles are leaked or lost"); CHK(vxw_allocs, abase, "memory is leaked or lost"); }
#endif
