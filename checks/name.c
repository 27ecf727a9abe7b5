/* C30: thread names, attribute names, unique ids, thread handles, processor count.
   Every string of at most 3 characters, every buffer length 1..5; threads racing on one name. */
#include "h.h"
extern vx_u64 vxw_proc_mask, vxw_sys_mask;
static char in1[4], in2[4], out[8]; static pthread_attr_t a;
static int slen(const char *s) { int n = 0; while (n < 3 && s[n]) n++; return n; }
static void sym(char *b, const char *tag) { vx_u32 v = __vx_nondet(tag); b[0] = (char)v; b[1] = (char)(v >> 8); b[2] = (char)(v >> 16); b[3] = 0; }
static void expect(const char *want, int len) { int n = slen(want); if (n > len - 1) n = len - 1;
  for (int i = 0; i < 8; i++) { char w = i < n ? want[i] : i == n ? 0 : '#'; VX_ASSERT(out[i] == w, i > n && i < len ? "bytes after the terminator changed" : i >= len ? "name written beyond the given buffer" : "name read back differs from the one stored"); } }
static int blen(void) { int l = 1 + (int)(__vx_nondet("len") % 5); return l; }
#define FILL for (int i = 0; i < 8; i++) out[i] = '#';
#ifdef NPROC
void vx_setup(void) { /* any subset of the first 12 processors together with any one other processor */ vx_u64 m = __vx_nondet64("mask") & 0xfff; vx_u32 hi = __vx_nondet("hi") & 63; m |= 1ull << hi; vxw_sys_mask = ~0ull; vxw_proc_mask = m; attach(1); __vx_set_tid(1); int c = 0; for (int i = 0; i < 64; i++) c += (int)((m >> i) & 1);
  CHK(pthread_num_processors_np(), c, "processor count"); VX_COVER("!done"); }
#elif defined(SEQ)
void vx_setup(void) { attach(1); __vx_set_tid(1); pthread_t me = selfs[1], other; int l, n0; sym(in1, "name1"); sym(in2, "name2");
  FILL l = 4; CHK(pthread_getname_np(me, out, l), 0, "getname of an unnamed thread"); expect("", l);
  n0 = vxw_allocs; CHK(pthread_setname_np(me, in1), 0, "setname"); 
  char keep[4]; for (int i = 0; i < 4; i++) keep[i] = in1[i]; for (int i = 0; i < 3; i++) in1[i] = 'z';  /* the name must be a copy */
  FILL l = blen(); CHK(pthread_getname_np(me, out, l), 0, "getname"); expect(keep, l);
  CHK(pthread_setname_np(me, in2), 0, "setname again"); VX_ASSERT(vxw_allocs == n0 + 1, "renaming leaks the old name");
  FILL l = blen(); CHK(pthread_getname_np(me, out, l), 0, "getname"); expect(in2, l); 
  n0 = vxw_allocs; CHK(pthread_attr_init(&a), 0, "attr_init"); FILL CHK(pthread_attr_getname_np(&a, out, 4), 0, "attr getname unnamed"); expect("", 4);
  CHK(pthread_attr_setname_np(&a, keep), 0, "attr setname"); FILL l = blen(); CHK(pthread_attr_getname_np(&a, out, l), 0, "attr getname"); expect(keep, l);
  CHK(pthread_attr_setname_np(&a, in2), 0, "attr setname again"); FILL l = blen(); CHK(pthread_attr_getname_np(&a, out, l), 0, "attr getname"); expect(in2, l); CHK(pthread_attr_destroy(&a), 0, "attr_destroy"); VX_ASSERT(vxw_allocs == n0, "attribute name leaks");
  /* a second thread: ids, handles and names are its own */
  __vx_set_tid(2); other = pthread_self(); CHK(pthread_setname_np(other, keep), 0, "setname"); __vx_set_tid(1);
  VX_ASSERT(pthread_getunique_np(me) != pthread_getunique_np(other), "two threads share a unique id"); VX_ASSERT(pthread_getw32threadid_np(me) == 1001 && pthread_getw32threadid_np(other) == 1002, "Windows thread id of another thread");
  VX_ASSERT(pthread_getw32threadhandle_np(me) != pthread_getw32threadhandle_np(other), "two threads share a handle"); VX_ASSERT(__vxw_handle_tid(pthread_getw32threadhandle_np(me)) == 1 && __vxw_handle_tid(pthread_getw32threadhandle_np(other)) == 2, "handle of another thread");
  FILL l = blen(); CHK(pthread_getname_np(other, out, l), 0, "getname of another thread"); expect(keep, l); FILL l = blen(); CHK(pthread_getname_np(me, out, l), 0, "getname"); expect(in2, l);
  /* the record is gone after the thread has ended */
  n0 = vxw_allocs; __vx_set_tid(2); pthread_win32_thread_detach_np(); __vx_set_tid(1); VX_ASSERT(vxw_allocs < n0, "the name of an ended thread is not released");
  FILL CHK(pthread_getname_np(other, out, 4), ESRCH, "getname of an ended thread"); expect("", 0) ; CHK(pthread_setname_np(other, keep), ESRCH, "setname of an ended thread"); VX_ASSERT(out[0] == '#', "rejected getname wrote to the buffer");
  __vx_set_tid(3); pthread_t third = pthread_self(); FILL CHK(pthread_getname_np(third, out, 4), 0, "getname of a new thread"); expect("", 4); VX_ASSERT(pthread_getunique_np(third) != pthread_getunique_np(me), "two threads share a unique id"); VX_COVER("!done"); }
#else
/* concurrent: threads named and read by others; first use of the library by several threads at once (unique ids) */
static vx_u64 ids[VX_MAXT]; static pthread_t tt[VX_MAXT]; static int have[VX_MAXT];
static void __vx_got(int t, vx_u64 id, pthread_t me) { ids[t] = id; tt[t] = me; have[t] = 1; for (int k = 1; k < VX_MAXT; k++) if (k != t && have[k]) { VX_ASSERT(ids[k] != id, "two live threads have the same unique id"); VX_ASSERT(!(tt[k].p == me.p && tt[k].x == me.x), "two live threads have the same identity"); } }
static void op_self(int t) { pthread_t me = pthread_self(); __vx_got(t, pthread_getunique_np(me), me); pthread_t again = pthread_self(); VX_ASSERT(pthread_equal(me, again), "pthread_self changed"); }
static void op_set(int t, int k, char c) { char n[3]; n[0] = c; n[1] = c; n[2] = 0; CHK(pthread_setname_np(selfs[k], n), 0, "setname"); }
static void op_get(int t, int k) { char b[4]; b[3] = '#'; CHK(pthread_getname_np(selfs[k], b, 3), 0, "getname"); VX_ASSERT(b[3] == '#', "beyond buffer"); VX_ASSERT((b[0] == 0) || (b[0] == b[1] && b[2] == 0), "a torn name was read"); if (b[0]) VX_COVER("name read"); }
#define I op_self(t);
#define N(k, c) op_set(t, k, c);
#define G(k) op_get(t, k);
void vx_setup(void) {
#ifdef FIRST
  pthread_win32_process_attach_np();
#else
  attach(NT);
#endif
}
#ifdef S1
TH(1) { int t = 1; S1 }
#endif
#ifdef S2
TH(2) { int t = 2; S2 }
#endif
#ifdef S3
TH(3) { int t = 3; S3 }
#endif
void vx_final(void) { no_deadlock("a name call blocks for ever"); if (all_done()) VX_COVER("!all threads finished"); }
#endif
