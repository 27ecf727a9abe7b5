/* Model of the Win32 / CRT services the library uses, in plain C over the engine primitives.
   Functions whose name starts with __vx_ execute atomically (no interleaving inside). */
#include "vx.h"
typedef unsigned int DWORD; typedef int BOOL; typedef int LONG; typedef void *HANDLE; typedef unsigned long long SIZE_T;
#define INFINITE 0xFFFFFFFFu
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
enum { T_EVENT=1, T_SEM=2, T_THREAD=3, T_PROCESS=4 };
typedef struct VxH { int type, open, signaled, manual, count, max, tid, prio; vx_u64 affinity; } VxH;

int vxw_alloc_fail_budget, vxw_obj_fail_budget, vxw_thread_fail_budget, vxw_sem_fail_budget, vxw_tls_fail_budget;
int vxw_open_handles, vxw_allocs;
vx_u64 vxw_now = 132000000000000000ull; int vxw_time_free;
int vxw_exited[VX_MAXT], vxw_created[VX_MAXT], vxw_resumed[VX_MAXT], vxw_exitcode[VX_MAXT];
int vxw_next_slot = 2, vxw_slot_limit = VX_MAXT;
static unsigned (*vxw_start[VX_MAXT])(void *); static void *vxw_arg[VX_MAXT];
static int vxw_errno[VX_MAXT]; static DWORD vxw_lasterr[VX_MAXT];
#define MAXTLS 8
static void *vxw_tls[MAXTLS][VX_MAXT]; static int vxw_tls_used[MAXTLS];
static HANDLE vxw_tprio_dummy; 
int vxw_record, vxw_last_ms, vxw_patient, vxw_tmo_n; DWORD vxw_tmo_ms; /* the first wait that timed out */ /* vxw_patient: bitmask of threads whose finite waits never expire */
#define IMPATIENT(ms) ((ms) != INFINITE && ((ms) == 0 || !((vxw_patient >> __vx_tid()) & 1)))
static int vxw_tprio[VX_MAXT]; static vx_u64 vxw_taff[VX_MAXT];
vx_u64 vxw_proc_mask = 0xF, vxw_sys_mask = 0xF;
int vxw_suspended[VX_MAXT], vxw_ctx_set[VX_MAXT];

static int __vx_fail(int *budget, const char *tag) { if (*budget > 0 && (__vx_nondet(tag) & 1)) { --*budget; return 1; } return 0; }
static VxH *__vx_newh(int type) { VxH *h = (VxH *)__vx_alloc(sizeof(VxH), 1); h->type = type; h->open = 1; h->tid = -1; vxw_open_handles++; return h; }
static VxH *__vx_chk(HANDLE h, const char *msg) {
  if (h == (HANDLE)0 || h == (HANDLE)(long long)-1) { vxw_lasterr[__vx_tid()] = 6; return 0; }
  VxH *o = (VxH *)h; __vx_assert(o->open > 0, msg); return o; }

/* ---- memory */
static void *__vx_m(vx_u64 n, int z) { if (__vx_fail(&vxw_alloc_fail_budget, "allocfail")) { vxw_errno[__vx_tid()] = 12; return 0; } vxw_allocs++; return __vx_alloc(n, z); }
void *malloc(vx_u64 n) { return __vx_m(n, 0); }
void *calloc(vx_u64 n, vx_u64 s) { return __vx_m(n * s, 1); }
static void __vx_f(void *p) { if (p) { vxw_allocs--; __vx_free(p); } }
void free(void *p) { __vx_f(p); }
static vx_u64 __vx_strlen(const char *s) { vx_u64 n = 0; while (s[n]) n++; return n; }
vx_u64 strlen(const char *s) { return __vx_strlen(s); }
static char *__vx_strncat(char *d, const char *s, vx_u64 n) { vx_u64 l = __vx_strlen(d), i; for (i = 0; i < n && s[i]; i++) d[l+i] = s[i]; d[l+i] = 0; return d; }
char *strncat(char *d, const char *s, vx_u64 n) { return __vx_strncat(d, s, n); }
static char *__vx_strncpy(char *d, const char *s, vx_u64 n) { vx_u64 i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strncpy(char *d, const char *s, vx_u64 n) { return __vx_strncpy(d, s, n); }
static char *__vx_strcpy(char *d, const char *s) { vx_u64 i = 0; while ((d[i] = s[i])) i++; return d; }
char *strcpy(char *d, const char *s) { return __vx_strcpy(d, s); }
static int __vx_memcmp(const unsigned char *a, const unsigned char *b, vx_u64 n) { for (vx_u64 i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int memcmp(const void *a, const void *b, vx_u64 n) { return __vx_memcmp(a, b, n); }
int *_errno(void) { return &vxw_errno[__vx_tid()]; }
static void __vx_seterr(DWORD e) { vxw_lasterr[__vx_tid()] = e; }
static DWORD __vx_geterr(void) { return vxw_lasterr[__vx_tid()]; }
void SetLastError(DWORD e) { __vx_seterr(e); }
DWORD GetLastError(void) { return __vx_geterr(); }

/* ---- kernel objects */
static HANDLE __vx_mkevent(BOOL manual, BOOL init) { if (__vx_fail(&vxw_obj_fail_budget, "eventfail")) { __vx_seterr(8); return 0; } VxH *h = __vx_newh(T_EVENT); h->manual = manual; h->signaled = !!init; return h; }
HANDLE CreateEventA(void *sa, BOOL manual, BOOL init, const char *name) { return __vx_mkevent(manual, init); }
HANDLE CreateEventW(void *sa, BOOL manual, BOOL init, const void *name) { return __vx_mkevent(manual, init); }
static BOOL __vx_setev(HANDLE h, int v) { VxH *o = __vx_chk(h, "SetEvent/ResetEvent on a closed handle"); if (!o) return 0; o->signaled = v; return 1; }
BOOL SetEvent(HANDLE h) { __vx_yield(); return __vx_setev(h, 1); }
BOOL ResetEvent(HANDLE h) { __vx_yield(); return __vx_setev(h, 0); }
static HANDLE __vx_mksem(LONG init, LONG max) { if (init < 0 || max <= 0 || init > max) { __vx_seterr(87); return 0; } if (__vx_fail(&vxw_sem_fail_budget, "semfail")) { __vx_seterr(8); return 0; } VxH *h = __vx_newh(T_SEM); h->count = init; h->max = max; return h; }
HANDLE CreateSemaphoreA(void *sa, LONG init, LONG max, const char *name) { return __vx_mksem(init, max); }
HANDLE CreateSemaphoreW(void *sa, LONG init, LONG max, const void *name) { return __vx_mksem(init, max); }
static BOOL __vx_relsem(HANDLE h, LONG n, LONG *prev) { VxH *o = __vx_chk(h, "ReleaseSemaphore on a closed handle"); if (!o) return 0; if (n <= 0) { __vx_seterr(87); return 0; } if (n > o->max - o->count) { __vx_seterr(298); return 0; } if (prev) *prev = o->count; o->count += n; return 1; }
BOOL ReleaseSemaphore(HANDLE h, LONG n, LONG *prev) { __vx_yield(); return __vx_relsem(h, n, prev); }
int __vxw_sem_count(void *h) { return ((VxH *)h)->count; }
int __vxw_ev_signaled(void *h) { return ((VxH *)h)->signaled; }
static BOOL __vx_close(HANDLE h) { if (h == (HANDLE)(long long)-2 || h == (HANDLE)(long long)-1) return 1; VxH *o = __vx_chk(h, "CloseHandle on a closed handle"); if (!o) return 0; o->open--; vxw_open_handles--; return 1; }
BOOL CloseHandle(HANDLE h) { __vx_yield(); return __vx_close(h); }
static int __vx_sig(VxH *o) { switch (o->type) { case T_EVENT: return o->signaled; case T_SEM: return o->count > 0; case T_THREAD: return vxw_exited[o->tid]; default: return 0; } }
static void __vx_consume(VxH *o) { if (o->type == T_EVENT && !o->manual) o->signaled = 0; else if (o->type == T_SEM) o->count--; }
static DWORD __vx_wso(HANDLE h, DWORD ms) {
  VxH *o = 0; int s = 1, bad = 1;
  if (h != (HANDLE)0 && h != (HANDLE)(long long)-1 && h != (HANDLE)(long long)-2) { o = (VxH *)h; bad = o->open <= 0; s = bad ? 1 : __vx_sig(o); }
  __vx_wait_end(s || IMPATIENT(ms));
  if (!o) { __vx_seterr(6); return WAIT_FAILED; }
  __vx_assert(!bad, "WaitForSingleObject on a closed handle");
  if (s) { __vx_consume(o); return 0; }
  if (vxw_record && !vxw_tmo_n++) vxw_tmo_ms = ms; return WAIT_TIMEOUT; }
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { __vx_wait_begin(); return __vx_wso(h, ms); }
static DWORD __vx_wmo(DWORD n, HANDLE *hs, BOOL all, DWORD ms) {
  int s0 = 0, s1 = 0; VxH *a = (VxH *)hs[0], *b = n > 1 ? (VxH *)hs[1] : 0; int bad = 0;
  if (!a || a->open <= 0) bad = 1; else s0 = __vx_sig(a);
  if (n > 1) { if (!b || b->open <= 0) bad = 1; else s1 = __vx_sig(b); }
  __vx_wait_end(bad || s0 || s1 || IMPATIENT(ms));
  __vx_assert(n <= 2 && !all, "winmodel: WaitForMultipleObjects shape");
  if (bad) { __vx_assert(!(a && a->open <= 0) && !(b && b->open <= 0), "WaitForMultipleObjects on a closed handle"); __vx_seterr(6); return WAIT_FAILED; }
  if (s0) { __vx_consume(a); return 0; }
  if (s1) { __vx_consume(b); return 1; }
  if (vxw_record && !vxw_tmo_n++) vxw_tmo_ms = ms; return WAIT_TIMEOUT; }
DWORD WaitForMultipleObjects(DWORD n, HANDLE *hs, BOOL all, DWORD ms) { __vx_wait_begin(); return __vx_wmo(n, hs, all, ms); }
static void __vx_slept(DWORD ms) { if (vxw_record) vxw_last_ms = ms; }
void Sleep(DWORD ms) { __vx_yield(); __vx_slept(ms); }
HANDLE GetCurrentProcess(void) { return (HANDLE)(long long)-1; }
HANDLE GetCurrentThread(void) { return (HANDLE)(long long)-2; }
DWORD GetCurrentThreadId(void) { return 1000 + __vx_tid(); }
DWORD GetCurrentProcessId(void) { return 77; }
static BOOL __vx_dup(HANDLE h, HANDLE *out) { if (__vx_fail(&vxw_obj_fail_budget, "dupfail")) { __vx_seterr(8); return 0; }
  if (h == (HANDLE)(long long)-2) { VxH *n = __vx_newh(T_THREAD); n->tid = __vx_tid(); *out = n; return 1; }
  VxH *o = __vx_chk(h, "DuplicateHandle on a closed handle"); if (!o) return 0; o->open++; vxw_open_handles++; *out = h; return 1; }
BOOL DuplicateHandle(HANDLE sp, HANDLE h, HANDLE dp, HANDLE *out, DWORD acc, BOOL inh, DWORD opt) { return __vx_dup(h, out); }

/* ---- threads */
static unsigned long long __vx_begin(unsigned (*start)(void *), void *arg, unsigned flags, unsigned *id) {
  if (vxw_next_slot >= vxw_slot_limit || __vx_fail(&vxw_thread_fail_budget, "threadfail")) { vxw_errno[__vx_tid()] = 11; return 0; }
  int k = vxw_next_slot++; VxH *h = __vx_newh(T_THREAD); h->tid = k; vxw_start[k] = start; vxw_arg[k] = arg; vxw_resumed[k] = !(flags & 4); vxw_created[k] = 1; if (id) *id = 1000 + k; return (unsigned long long)h; }
unsigned long long _beginthreadex(void *sa, unsigned stack, unsigned (*start)(void *), void *arg, unsigned flags, unsigned *id) { __vx_yield(); return __vx_begin(start, arg, flags, id); }
static void __vx_startwait(int k) { __vx_wait_end(vxw_created[k] && vxw_resumed[k]); }
static void __vx_finish(int k, unsigned code) { vxw_exitcode[k] = code; vxw_exited[k] = 1; }
void vx_slot_main(int k) { __vx_wait_begin(); __vx_startwait(k); unsigned r = vxw_start[k](vxw_arg[k]); __vx_yield(); __vx_finish(k, r); }
void _endthreadex(unsigned code) { __vx_yield(); __vx_finish(__vx_tid(), code); __vx_thread_exit(); }
void ExitThread(DWORD code) { _endthreadex(code); }
static DWORD __vx_resume(HANDLE h) { VxH *o = __vx_chk(h, "ResumeThread on a closed handle"); if (!o) return -1; if (vxw_suspended[o->tid]) { vxw_suspended[o->tid]--; return 1; } vxw_resumed[o->tid] = 1; return 1; }
DWORD ResumeThread(HANDLE h) { __vx_yield(); return __vx_resume(h); }
static DWORD __vx_suspend(HANDLE h) { VxH *o = __vx_chk(h, "SuspendThread on a closed handle"); if (!o) return -1; vxw_suspended[o->tid]++; return 0; }
DWORD SuspendThread(HANDLE h) { __vx_yield(); return __vx_suspend(h); }
BOOL GetThreadContext(HANDLE h, void *ctx) { return 1; }
void *vxw_ctx_pc[VX_MAXT];
static BOOL __vx_setctx(HANDLE h, const void *ctx) { VxH *o = __vx_chk(h, "SetThreadContext on a closed handle"); if (!o) return 0; vxw_ctx_set[o->tid]++; vxw_ctx_pc[o->tid] = *(void **)((char *)ctx + 0xf8); /* Rip */ return 1; }
BOOL SetThreadContext(HANDLE h, const void *ctx) { return __vx_setctx(h, ctx); }
/* a point of user code at which another thread may have suspended or diverted this one */
static void *__vx_diverted(void) { __vx_wait_end(!vxw_suspended[__vx_tid()]); void *p = vxw_ctx_pc[__vx_tid()]; vxw_ctx_pc[__vx_tid()] = 0; return p; }
void vxw_async_point(void) { __vx_wait_begin(); void (*p)(void) = (void (*)(void))__vx_diverted(); if (p) p(); }
static BOOL __vx_term(HANDLE h) { VxH *o = __vx_chk(h, "TerminateThread on a closed handle"); if (!o) return 0; vxw_exited[o->tid] = 1; return 1; }
BOOL TerminateThread(HANDLE h, DWORD code) { return __vx_term(h); }
static int *__vx_prio(HANDLE h) { if (h == (HANDLE)(long long)-2) return &vxw_tprio[__vx_tid()]; VxH *o = __vx_chk(h, "thread priority call on a closed handle"); return o ? &vxw_tprio[o->tid] : 0; }
static int __vx_getprio(HANDLE h) { int *p = __vx_prio(h); return p ? *p : 0x7fffffff; }
int GetThreadPriority(HANDLE h) { return __vx_getprio(h); }
int vxw_setprio_fail;
static BOOL __vx_setprio(HANDLE h, int v) { int *p = __vx_prio(h); if (!p || vxw_setprio_fail) return 0; if (!(v >= -2 && v <= 2) && v != 15 && v != -15) { __vx_seterr(87); return 0; } *p = v; return 1; }
BOOL SetThreadPriority(HANDLE h, int v) { __vx_yield(); return __vx_setprio(h, v); }
static vx_u64 __vx_setaff(HANDLE h, vx_u64 m) { int t; if (h == (HANDLE)(long long)-2) t = __vx_tid(); else { VxH *o = __vx_chk(h, "SetThreadAffinityMask on a closed handle"); if (!o) return 0; t = o->tid; }
  if (m == 0 || (m & ~vxw_proc_mask)) { __vx_seterr(87); return 0; } vx_u64 old = vxw_taff[t] ? vxw_taff[t] : vxw_proc_mask; vxw_taff[t] = m; return old; }
vx_u64 SetThreadAffinityMask(HANDLE h, vx_u64 m) { __vx_yield(); return __vx_setaff(h, m); }
int vxw_procaff_fail;
static BOOL __vx_getpa(vx_u64 *p, vx_u64 *s) { if (vxw_procaff_fail) { __vx_seterr(5); return 0; } *p = vxw_proc_mask; *s = vxw_sys_mask; return 1; }
BOOL GetProcessAffinityMask(HANDLE h, vx_u64 *p, vx_u64 *s) { return __vx_getpa(p, s); }
static BOOL __vx_setpa(vx_u64 m) { if (vxw_procaff_fail) { __vx_seterr(5); return 0; } if (m == 0 || (m & ~vxw_sys_mask)) { __vx_seterr(87); return 0; } vxw_proc_mask = m; return 1; }
BOOL SetProcessAffinityMask(HANDLE h, vx_u64 m) { return __vx_setpa(m); }
DWORD vxw_openproc_err; 
static HANDLE __vx_openproc(DWORD pid) { if (vxw_openproc_err) { __vx_seterr(vxw_openproc_err); return 0; } return __vx_newh(T_PROCESS); }
HANDLE OpenProcess(DWORD acc, BOOL inh, DWORD pid) { return __vx_openproc(pid); }
vx_u64 __vxw_taff(int t) { return vxw_taff[t]; }
int __vxw_tprio(int t) { return vxw_tprio[t]; }
int __vxw_handle_tid(void *h) { return ((VxH *)h)->tid; }
int __vxw_handle_open(void *h) { return ((VxH *)h)->open; }

/* ---- TLS */
static DWORD __vx_tlsalloc(void) { if (__vx_fail(&vxw_tls_fail_budget, "tlsfail")) { __vx_seterr(8); return 0xFFFFFFFFu; } for (int i = 0; i < MAXTLS; i++) if (!vxw_tls_used[i]) { vxw_tls_used[i] = 1; for (int t = 0; t < VX_MAXT; t++) vxw_tls[i][t] = 0; return i; } __vx_seterr(8); return 0xFFFFFFFFu; }
DWORD TlsAlloc(void) { __vx_yield(); return __vx_tlsalloc(); }
static BOOL __vx_tlsfree(DWORD i) { if (i >= MAXTLS || !vxw_tls_used[i]) { __vx_seterr(87); return 0; } vxw_tls_used[i] = 0; return 1; }
BOOL TlsFree(DWORD i) { __vx_yield(); return __vx_tlsfree(i); }
static void *__vx_tlsget(DWORD i) { if (i >= MAXTLS) { __vx_seterr(87); return 0; } __vx_seterr(0); return vxw_tls[i][__vx_tid()]; }
void *TlsGetValue(DWORD i) { return __vx_tlsget(i); }
static BOOL __vx_tlsset(DWORD i, void *v) { if (i >= MAXTLS) { __vx_seterr(87); return 0; } vxw_tls[i][__vx_tid()] = v; return 1; }
BOOL TlsSetValue(DWORD i, void *v) { return __vx_tlsset(i, v); }
void vxw_reset_tls(void) {}

/* ---- time */
static void __vx_now(vx_u64 *ft) { if (vxw_time_free) { vx_u64 d = __vx_nondet64("clock"); __vx_assume(d >= vxw_now && d < 0x7000000000000000ull); vxw_now = d; } *ft = vxw_now; }
void GetSystemTimeAsFileTime(vx_u64 *ft) { __vx_now(ft); }

/* ---- misc */
DWORD GetSystemDirectoryA(char *b, DWORD n) { return 0; }
HANDLE LoadLibraryA(const char *n) { return 0; }
void *GetProcAddress(HANDLE h, const char *n) { return 0; }
BOOL FreeLibrary(HANDLE h) { return 1; }
void abort(void) { __vx_assert(0, "abort() called"); __vx_thread_exit(); }
void exit(int c) { __vx_note("exit", c); __vx_thread_exit(); }

/* ---- atomics (from inline asm) */
#define RMW(N,TY) \
TY __vx_cmpxchg##N(volatile TY *p, TY v, TY c) { __vx_access(p, sizeof(TY), 3); TY o = *p; *p = o == c ? v : o; return o; } \
TY __vx_xchg##N(volatile TY *p, TY v) { __vx_access(p, sizeof(TY), 3); TY o = *p; *p = v; return o; } \
TY __vx_xadd##N(volatile TY *p, TY v) { __vx_access(p, sizeof(TY), 3); TY o = *p; *p = o + v; return o; } \
TY __vx_cmpxchg_na##N(volatile TY *p, TY v, TY c) { __vx_access(p, sizeof(TY), 6); TY o = *p; __vx_access(p, sizeof(TY), 7); *p = o == c ? v : *p; return o; } \
TY __vx_xchg_na##N(volatile TY *p, TY v) { __vx_access(p, sizeof(TY), 6); TY o = *p; __vx_access(p, sizeof(TY), 7); *p = v; return o; } \
TY __vx_xadd_na##N(volatile TY *p, TY v) { __vx_access(p, sizeof(TY), 6); TY o = *p; __vx_access(p, sizeof(TY), 7); *p = o + v; return o; }
RMW(8, unsigned char)
RMW(16, unsigned short)
RMW(32, unsigned int)
RMW(64, unsigned long long)
