/* Native runtime: replays a trace produced by lsx against the same code compiled to machine code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include <sys/mman.h>
#define MAXT 8
typedef struct { int round, tid; unsigned long long v; char tag[96]; } ND;
static ND *nd[MAXT]; static int ndn[MAXT], ndi[MAXT];
typedef struct { int tid; char *hex; } LE; static LE *le[MAXT]; static int len_[MAXT], lei[MAXT];
typedef struct { int round, tid; long n; } SEG; static SEG *segs; static int nseg;
static ucontext_t mainctx, ctx[MAXT]; static int started[MAXT], done[MAXT], stuck[MAXT], nthreads;
static int cur = 0, threaded = 0, atomicDepth[MAXT], probe = 0, verbose = 0; static long budget;
static int covers, fair, fprobe; static long fsteps; static int fblocked[MAXT];
#include <sys/wait.h>
extern void vx_setup(void) __attribute__((weak)); extern void vx_final(void) __attribute__((weak));
extern void vx_thread1(void) __attribute__((weak)); extern void vx_thread2(void) __attribute__((weak)); extern void vx_thread3(void) __attribute__((weak)); extern void vx_thread4(void) __attribute__((weak)); extern void vx_thread5(void) __attribute__((weak));
static void bail(int code, const char *what, const char *msg) { printf("VXRT: %s: %s (thread %d)\n", what, msg, cur); fflush(stdout); _exit(code); }

static char *arena; static size_t apos; typedef struct { char *p; size_t n; int alive, heap; } BLK; static BLK blk[200000]; static int nblk;
static BLK *findblk(const void *p) { int lo = 0, hi = nblk - 1, r = -1; while (lo <= hi) { int m = (lo + hi) / 2; if (blk[m].p <= (char *)p) { r = m; lo = m + 1; } else hi = m - 1; } return r >= 0 ? &blk[r] : 0; }
static int inarena(const void *p) { return (char *)p >= arena && (char *)p < arena + (1ul << 30); }
static void *alloc(size_t n, int zero, int heap) { apos = (apos + 15) & ~15ul; char *p = arena + apos; apos += n + 64; blk[nblk++] = (BLK){p, n, 1, heap};
  if (!zero) { memset(p, 0xA5, n); if (lei[cur] < len_[cur]) { char *h = le[cur][lei[cur]++].hex; size_t l = strlen(h) / 2; for (size_t i = 0; i < l && i < n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); p[i] = x; } } } return p; }
void *__vx_alloc(uint64_t n, int zero) { return alloc(n, zero, 1); }
void *__vx_alloca(uint64_t n) { return alloc(n, 0, 0); }
void __vx_dealloca(void *p) { BLK *b = findblk(p); b->alive = 0; }
void __vx_free(void *p) { if (!inarena(p)) bail(11, "memory error", "free of non-heap pointer"); BLK *b = findblk(p); if (!b || b->p != p || !b->heap) bail(11, "memory error", "free of non-heap pointer"); if (!b->alive) bail(11, "memory error", "double free"); b->alive = 0; }
int __vx_live(const void *p) { BLK *b = inarena(p) ? findblk(p) : 0; return b && b->p == p && b->alive; }
int __vx_nlive(void) { int n = 0; for (int i = 0; i < nblk; i++) n += blk[i].heap && blk[i].alive; return n; }
static void chk(volatile void *p0, uint64_t n) { const char *p = (const char *)p0; if ((uintptr_t)p < 65536 || (uintptr_t)p >= 0x800000000000ul) bail(11, "memory error", "invalid address"); if (inarena(p)) { BLK *b = findblk(p); if (!b) bail(11, "memory error", "wild"); if (!b->alive) bail(11, "memory error", "access to freed object"); if (p + n > b->p + b->n) bail(11, "memory error", "out of bounds"); } }
static void sw_out(void) { swapcontext(&ctx[cur], &mainctx); }
static void ypoint(int wait) { if (!threaded || atomicDepth[cur]) return; 
  if (fair) { if (fprobe) return; sw_out(); return; }
  if (probe) { if (wait) { return; } sw_out(); return; }
  if (budget > 0) { budget--; return; }
  for (;;) { sw_out(); if (probe) { return; } if (budget > 0) { budget--; return; } } }
void __vx_yield(void) { ypoint(0); if (probe) { sw_out(); } }
static int atwait[MAXT];
void __vx_wait_begin(void) { if (!threaded || atomicDepth[cur]) return;
  if (fair) { for (;;) { sw_out(); fflush(stdout); pid_t p = fork(); if (p == 0) { fprobe = 1; return; } int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fblocked[cur] = 0; return; } fblocked[cur]++; } }
  atwait[cur] = 1; ypoint(1); }
void __vx_wait_end(int c) { if (fprobe) _exit(c ? 77 : 78); if (fair) { if (!c && threaded) bail(20, "fair", "wait"); return; } if (probe) { if (!c) stuck[cur] = 1; sw_out(); abort(); } atwait[cur] = 0; if (!c && !threaded) bail(10, "assertion failed", "a call blocks for ever although no other thread can run"); if (!c) bail(20, "replay mismatch", "wait passed while blocked"); }
void __vx_access(volatile void *p, uint64_t n, uint32_t fl) { int t = cur; ypoint(0); (void)t; chk(p, n); }
void __vx_assume(int c) { if (fair && !c) bail(21, "fair run", "assumption false"); if (!c) bail(20, "replay mismatch", "assumption false"); }
void __vx_assert(int c, const char *m) { if (verbose) printf("  assert %s : %s (thread %d)\n", c ? "ok" : "FAIL", m, cur); if (!c) bail(10, "assertion failed", m); }
void __vx_cover(const char *m) { printf("VXRT: cover: %s\n", m); covers++; }
static uint64_t getnd(const char *tag, int opt) { if (fair) return 0; if (ndi[cur] >= ndn[cur]) { bail(20, "replay mismatch: no value for", tag); } ND *e = &nd[cur][ndi[cur]++]; if (strncmp(e->tag, tag, 90)) bail(20, "replay mismatch: tag", tag); if (verbose) printf("  nondet %s = %llu (thread %d)\n", tag, e->v, cur); return e->v; }
uint32_t __vx_nondet(const char *tag) { return getnd(tag, 0); }
uint64_t __vx_nondet64(const char *tag) { return getnd(tag, 0); }
uint64_t __vx_ext(const char *tag) { return getnd(tag, 0); }
int __vx_tid(void) { return cur; }
void __vx_set_tid(int t) { cur = t; }
int __vx_done(int t) { return done[t]; }
int __vx_stuck(int t) { return stuck[t]; }
void __vx_thread_exit(void) { if (threaded) { done[cur] = 1; for (;;) sw_out(); } else bail(20, "replay mismatch", "thread exit outside threads"); }
void __vx_atomic_begin(void) { atomicDepth[cur]++; }
void __vx_atomic_end(void) { atomicDepth[cur]--; }
void __vx_note(const char *tag, uint64_t v) { if (verbose) printf("  note %s = %llu (thread %d)\n", tag, (unsigned long long)v, cur); }
static void (*ent[])(void) = {0, 0, 0, 0, 0, 0};
static void entry(int t) { ypoint(0); if (probe) { sw_out(); } ent[t](); done[t] = 1; for (;;) sw_out(); }
int main(int argc, char **argv) {
  if (argc < 2) return 2; if (!strcmp(argv[1], "--fair")) { fair = 1; alarm(60); } FILE *f = fopen(fair ? "/dev/null" : argv[1], "r"); if (!f) return 2; verbose = argc > 2;
  size_t cap = 1 << 20; char *line = malloc(cap); 
  while (getline(&line, &cap, f) > 0) { int r, t; unsigned long long v; char tag[128] = "";
    line[strcspn(line, "\n")] = 0;
    if ((line[0] == 'N' || line[0] == 'X') && line[1] == ' ') { int off = 0; sscanf(line + 2, "%d %d %llu %n", &r, &t, &v, &off); nd[t] = realloc(nd[t], (ndn[t] + 1) * sizeof(ND)); ND *e = &nd[t][ndn[t]++]; e->round = r; e->tid = t; e->v = v; snprintf(e->tag, sizeof e->tag, "%.90s", line + 2 + off); }
    else if (line[0] == 'S') { long n; sscanf(line + 2, "%d %d %ld", &r, &t, &n); segs = realloc(segs, (nseg + 1) * sizeof(SEG)); segs[nseg++] = (SEG){r, t, n}; }
    else if (line[0] == 'L') { int off = 0; unsigned sz; sscanf(line + 2, "%d %d %u %n", &r, &t, &sz, &off); le[t] = realloc(le[t], (len_[t] + 1) * sizeof(LE)); le[t][len_[t]++] = (LE){t, strdup(line + 2 + off)}; }
    else if (!strncmp(line, "thread ", 7)) { int k = atoi(line + 7); if (k > nthreads) nthreads = k; } }
  if (fair) for (nthreads = 0; nthreads < 5 && (nthreads == 0 ? vx_thread1 : nthreads == 1 ? vx_thread2 : nthreads == 2 ? vx_thread3 : nthreads == 3 ? vx_thread4 : vx_thread5); nthreads++);
  arena = mmap(0, 1ul << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ent[1] = vx_thread1; ent[2] = vx_thread2; ent[3] = vx_thread3; ent[4] = vx_thread4; ent[5] = vx_thread5;
  setvbuf(stdout, 0, _IOLBF, 0);
  if (vx_setup) vx_setup(); cur = 0;
  if (nthreads) { threaded = 1;
    for (int t = 1; t <= nthreads; t++) { getcontext(&ctx[t]); ctx[t].uc_stack.ss_sp = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ctx[t].uc_stack.ss_size = 1 << 20; ctx[t].uc_link = 0; makecontext(&ctx[t], (void (*)(void))entry, 1, t); started[t] = 1; }
    if (fair) { long n = 0; for (;;) { int live = 0, moving = 0; for (int t = 1; t <= nthreads; t++) if (!done[t]) { live = 1; cur = t; swapcontext(&mainctx, &ctx[t]); if (!done[t] && fblocked[t] == 0) moving = 1; if (done[t]) moving = 1; }
        if (!live) break; if (!moving) { int b = 0; for (int t = 1; t <= nthreads; t++) if (!done[t] && fblocked[t] < 3) b = 1; if (!b) bail(12, "no progress", "all remaining threads blocked under the fair schedule"); }
        if (++n > 200000) bail(12, "no progress", "threads spin forever under the fair schedule"); } nseg = 0; }
    for (int i = 0; i < nseg; i++) { int t = segs[i].tid; if (segs[i].n == 0 || done[t]) { if (segs[i].n) bail(20, "replay mismatch", "schedule runs a finished thread"); continue; } cur = t; budget = segs[i].n; if (verbose) printf("segment: round %d thread %d, %ld points\n", segs[i].round, t, segs[i].n); swapcontext(&mainctx, &ctx[t]); if (budget > 0) bail(20, "replay mismatch", "segment ended early"); }
    probe = 1; for (int t = 1; t <= nthreads; t++) if (!done[t] && atwait[t]) { cur = t; swapcontext(&mainctx, &ctx[t]); }
    probe = 0; threaded = 0; cur = 0; }
  if (vx_final) vx_final();
  printf("VXRT: completed, %d cover points\n", covers); return 0; }
