/* C23: times. Now is any 100 ns tick from 1970 to 2242 (or the stated window), the deadline any 64-bit number of seconds and any legal nanoseconds. */
#include "h.h"
#define OFF ((((vx_u64)27111902UL) << 32) + 3577643008UL)
static vx_u64 S; static vx_u32 F; /* seconds since 1970 and 100 ns ticks within the second */
static void clock_is(vx_u64 s, vx_u32 f) { S = s; F = f; vxw_now = OFF + s * 10000000ull + f; }
static vx_u32 below(vx_u32 x, vx_u32 lim) { return x < lim ? x : lim - 1; }
static void now_any(void) { vxw_record = 1; vx_u64 hi = __vx_nondet64("epoch") & 0x1ffffffffull; clock_is(hi, below(__vx_nondet("ticks") & 0xffffff, 10000000)); }
#if defined(ABS) && (ABS > 1 || defined(WIN))
#define DIST "distant"
#else
#define DIST "!distant"
#endif
#if defined(ABS) && ABS == 1 && (!defined(NEAR) || defined(WIN))
#define AHEAD "ahead"
#else
#define AHEAD "!ahead"
#endif
#ifdef WIN
#define PASSED "past"
#else
#define PASSED "!past"
#endif
#define NEVER 0xFFFFFFFFu
/* the wait handed to the system for an absolute deadline: ms milliseconds */
static void __vx_judge(long long sec, vx_u32 nsec, vx_u32 ms) {
  if (sec < (long long)S || (sec == (long long)S && nsec <= F * 100)) { CHK(ms, 0, "the wait for a deadline in the past is not 0"); VX_COVER(PASSED); return; }
  VX_ASSERT(ms != NEVER, "a timed wait was made infinite"); vx_u64 ds = (vx_u64)sec - S; /* whole seconds; the fraction may be negative */
  if (ds > 4294967ull + 2) { VX_ASSERT(ms >= 4294960000u, "a distant deadline was shortened by wrap-around"); VX_COVER(DIST); return; }
  /* what is left beyond the whole seconds, in milliseconds (modulo 2^32) and nanoseconds */
  int x = (int)(ms - (vx_u32)ds * 1000u); long long left = (long long)nsec - (long long)(F * 100), got = (long long)x * 1000000ll; if (ms >= NEVER - 1) { VX_ASSERT(ds >= 4294966, "the wait is longer than the distance to the deadline"); VX_COVER("longest wait"); return; }
  VX_ASSERT(x >= -1001 && x <= 1001, "the wait differs from the distance to the deadline by a second or more"); VX_ASSERT(got <= left + 1000000, "the wait is longer than the distance to the deadline"); VX_ASSERT(got > left - 1000000, "the wait is shorter than the distance to the deadline"); VX_ASSERT(ms > 0, "no wait at all although the deadline has not passed"); VX_COVER(AHEAD); }
static struct timespec deadline(void) { struct timespec t; t.tv_sec = (long long)__vx_nondet64("sec"); t.tv_nsec = (int)below(__vx_nondet("nsec") & 0x3fffffff, 1000000000); return t; }
#if defined(ABS)
static sem_t s; static pthread_mutex_t m; static pthread_cond_t c; static pthread_rwlock_t rw; static void *run(void *a) { return a; }
void vx_setup(void) { attach(2); __vx_set_tid(1);
#if ABS == 1
  now_any();
#ifdef WIN /* a fixed now, deadlines within 8 s of WIN seconds ahead */
  clock_is(1700000000, 1234567); struct timespec t = deadline(); t.tv_sec = (long long)S + (WIN) + (long long)(__vx_nondet("delta") & 15) - 8; 
#elif defined(NEAR) /* every deadline within 97 days of now */
  struct timespec t = deadline(); t.tv_sec = (long long)S + (long long)(__vx_nondet("delta") & 0xffffff) - 8388608; 
#else /* every other deadline */
  struct timespec t = deadline(); VX_ASSUME(t.tv_sec < (long long)S - 8000000 || t.tv_sec > (long long)S + 8000000);
#endif
  CHK(sem_init(&s, 0, 0), 0, "sem_init"); CHK(sem_timedwait(&s, &t), -1, "sem_timedwait"); CHK(errno, ETIMEDOUT, "errno");
#else
  /* the other timed calls: windows around now */
  now_any(); struct timespec t = deadline(); t.tv_sec = (long long)S + (long long)(__vx_nondet("delta") & 0xffffff) - 8388608;
#if ABS == 2
  pthread_mutex_init(&m, 0); __vx_set_tid(2); pthread_mutex_lock(&m); __vx_set_tid(1); CHK(pthread_mutex_timedlock(&m, &t), ETIMEDOUT, "mutex_timedlock");
#elif ABS == 3
  pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); pthread_mutex_lock(&m); CHK(pthread_cond_timedwait(&c, &m, &t), ETIMEDOUT, "cond_timedwait");
#elif ABS == 4
  pthread_rwlock_init(&rw, 0); __vx_set_tid(2); CHK(pthread_rwlock_rdlock(&rw), 0, "rdlock"); __vx_set_tid(1); CHK(pthread_rwlock_timedwrlock(&rw, &t), ETIMEDOUT, "timedwrlock");
#elif ABS == 5
  CHK(pthread_create(&selfs[3], 0, run, 0), 0, "create"); CHK(pthread_timedjoin_np(selfs[3], 0, &t), ETIMEDOUT, "timedjoin");
#elif ABS == 6
  pthread_rwlock_init(&rw, 0); __vx_set_tid(2); CHK(pthread_rwlock_wrlock(&rw), 0, "wrlock"); __vx_set_tid(1); CHK(pthread_rwlock_timedrdlock(&rw, &t), ETIMEDOUT, "timedrdlock");
#endif
#endif
  __vx_judge(t.tv_sec, (vx_u32)t.tv_nsec, vxw_tmo_n ? vxw_tmo_ms : 0); VX_COVER("!done"); }
#elif defined(REL)
void vx_setup(void) { attach(1); __vx_set_tid(1); now_any(); struct timespec t, r, *p; t.tv_sec = 5; t.tv_nsec = 5; r.tv_sec = (long long)(__vx_nondet64("isec") & 0x1ffffffffull); r.tv_nsec = (int)below(__vx_nondet("insec") & 0x3fffffff, 1000000000);
  p = pthread_win32_getabstime_np(&t, 0); VX_ASSERT(p == &t, "result pointer"); VX_ASSERT((vx_u64)t.tv_sec == S, "current time: seconds"); VX_ASSERT((vx_u32)t.tv_nsec == F * 100, "current time: nanoseconds");
  p = pthread_win32_getabstime_np(&t, &r); VX_ASSERT(p == &t, "result pointer"); vx_u32 ns = F * 100 + (vx_u32)r.tv_nsec; int carry = ns >= 1000000000u; if (carry) { ns -= 1000000000u; VX_COVER("!carry"); } VX_ASSERT((vx_u64)t.tv_sec == S + (vx_u64)r.tv_sec + (vx_u64)carry, "expiration: seconds"); VX_ASSERT((vx_u32)t.tv_nsec == ns, "expiration: nanoseconds"); VX_COVER("!done"); }
#elif defined(CONV)
typedef struct { unsigned lo, hi; } FT; extern void ptw32_filetime_to_timespec(const vx_u64 *, struct timespec *), ptw32_timespec_to_filetime(const struct timespec *, vx_u64 *);
void vx_setup(void) { attach(1); __vx_set_tid(1); now_any(); struct timespec t, u; vx_u64 ft = vxw_now, b = 0; ptw32_filetime_to_timespec(&ft, &t); VX_ASSERT((vx_u64)t.tv_sec == S && (vx_u32)t.tv_nsec == F * 100, "system time to timespec"); ptw32_timespec_to_filetime(&t, &b); VX_ASSERT(b == ft, "system time does not survive conversion"); 
  u.tv_sec = (long long)S; vx_u32 n = below(__vx_nondet("nsec") & 0x3fffffff, 1000000000); u.tv_nsec = (int)n; ptw32_timespec_to_filetime(&u, &b); vx_u64 base = OFF + S * 10000000ull; VX_ASSERT(b >= base && (b - base) * 100 <= n + 50ull && (b - base) * 100 + 50 >= n, "timespec to system time is off by more than rounding"); VX_COVER("!done"); }
#elif defined(DELAY)
void vx_setup(void) { attach(1); __vx_set_tid(1); struct timespec t = deadline(); int dis = __vx_nondet("disabled") & 1; if (dis) pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0); vxw_record = 1; vxw_last_ms = 0; CHK(pthread_delay_np(0), EINVAL, "NULL interval");
  int r = pthread_delay_np(&t); vx_u32 ms = dis ? (vx_u32)vxw_last_ms : vxw_tmo_n ? vxw_tmo_ms : 0; if (t.tv_sec < 0) { CHK(r, EINVAL, "a negative interval must be rejected"); VX_COVER("!negative"); return; }
  if (r == EINVAL) { VX_ASSERT(t.tv_sec >= 2147483, "an interval of less than 24 days was rejected"); VX_COVER("!too long"); return; } CHK(r, 0, "pthread_delay_np"); VX_ASSERT(ms != NEVER, "the delay was made infinite"); VX_ASSERT(t.tv_sec <= 4294967, "an interval longer than the longest system wait was accepted");
  vx_u32 x = ms - (vx_u32)t.tv_sec * 1000u; VX_ASSERT(ms >= (vx_u32)t.tv_sec * 1000u, "the delay was shortened by wrap-around"); VX_ASSERT(x <= 1002, "the delay is longer than asked for"); VX_ASSERT(x * 1000000ull >= (vx_u64)t.tv_nsec, "the delay was shortened"); VX_ASSERT(x * 1000000ull <= (vx_u64)t.tv_nsec + 2000000, "the delay is longer than asked for"); VX_COVER("!done"); }
#endif
