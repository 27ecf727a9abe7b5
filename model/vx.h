/* Primitives provided by the symbolic engine (lsx) and, for replay, by vxrt.c */
#ifndef VX_H
#define VX_H
typedef unsigned int vx_u32; typedef unsigned long long vx_u64;
extern void __vx_yield(void);
extern void __vx_wait_begin(void);
extern void __vx_wait_end(int cond);
extern void __vx_access(volatile void *p, vx_u64 n, vx_u32 flags);
extern void __vx_assume(int c);
extern void __vx_assert(int c, const char *msg);
extern void __vx_cover(const char *msg);
extern vx_u32 __vx_nondet(const char *tag);
extern vx_u64 __vx_nondet64(const char *tag);
extern int __vx_tid(void);
extern void __vx_set_tid(int t);
extern int __vx_done(int t);
extern int __vx_stuck(int t);
extern void __vx_thread_exit(void);
extern void *__vx_alloc(vx_u64 n, int zero);
extern void __vx_free(void *p);
extern int __vx_live(const void *p);
extern int __vx_nlive(void);
extern void __vx_atomic_begin(void);
extern void __vx_atomic_end(void);
extern void __vx_note(const char *tag, vx_u64 v);
#define VX_ASSERT(c,m) __vx_assert(!!(c),m)
#define VX_ASSUME(c) __vx_assume(!!(c))
#define VX_COVER(m) __vx_cover(m)
#define VX_MAXT 6
/* winmodel knobs and observers */
extern int vxw_alloc_fail_budget, vxw_obj_fail_budget, vxw_thread_fail_budget, vxw_sem_fail_budget, vxw_tls_fail_budget;
extern int vxw_open_handles, vxw_allocs, vxw_procaff_fail; extern vx_u64 vxw_proc_mask, vxw_sys_mask;
extern vx_u64 vxw_now;           /* FILETIME units */
extern int vxw_time_free;        /* 1: clock advances nondeterministically */
extern int vxw_exited[VX_MAXT], vxw_created[VX_MAXT], vxw_resumed[VX_MAXT], vxw_exitcode[VX_MAXT];
extern void vxw_async_point(void); extern int vxw_suspended[VX_MAXT], vxw_ctx_set[VX_MAXT];
extern int vxw_next_slot, vxw_slot_limit;
extern void vx_slot_main(int k);
extern int __vxw_handle_tid(void *h), __vxw_handle_open(void *h); extern int __vxw_tprio(int t); extern vx_u64 __vxw_taff(int t);
extern vx_u32 vxw_tmo_ms; extern int vxw_tmo_n; extern int vxw_record, vxw_last_ms, vxw_patient;
extern int __vxw_sem_count(void *h);
extern int __vxw_ev_signaled(void *h);
extern void vxw_reset_tls(void);
#endif
