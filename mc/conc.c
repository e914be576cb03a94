/* C10: thread interleavings of the real code under a controlled scheduler.
 *
 * The library is compiled with -fsanitize=thread, but linked against the
 * functions below instead of the tsan runtime: every load and store of the
 * library (except to the running thread's own stack) passes through access().
 * Threads are real, but only the one holding the baton runs.
 *
 * For every thread program:
 *  1. it is run in every non-preemptive order, recording which bytes each
 *     thread reads and writes.  Two accesses conflict when different threads
 *     make them to one byte and one is a write.  With no conflicts, all
 *     interleavings are equivalent to the ones run (they commute), so the
 *     exploration of that program is complete;
 *  2. otherwise every interleaving with up to `bound` preemptions at
 *     conflicting accesses is run;
 *  3. (all=1) every interleaving with one preemption at any access is run,
 *     conflict or not.
 * With crowd=1, instead, 66 threads: each is stopped at its k-th access while
 * the next one starts, until all are inside the library; then they go on, in
 * either order.  Every program, every pair of programs alternating, every k of
 * a list that holds the neighbourhood of each synchronising operation and of
 * both ends, and a regular grid in between.
 * The oracle is the result of every call, compared with the reference model.
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <dvbcsa/dvbcsa.h>
#include "ref.h"

static FILE *report;
#define printf(...) fprintf(report, __VA_ARGS__)
#define vprintf(f, a) vfprintf(report, f, a)

#define MAXT 66       /* threads of a crowd; at most TRK in the full exploration */
#define TRK 3
static struct {
  struct dvbcsa_key_s *(*key_alloc)(void); void (*key_free)(struct dvbcsa_key_s *);
  void (*key_set)(const unsigned char *, struct dvbcsa_key_s *);
  void (*decrypt)(const struct dvbcsa_key_s *, unsigned char *, unsigned); void (*encrypt)(const struct dvbcsa_key_s *, unsigned char *, unsigned);
  struct dvbcsa_bs_key_s *(*bs_key_alloc)(void); void (*bs_key_free)(struct dvbcsa_bs_key_s *);
  void (*bs_key_set)(const unsigned char *, struct dvbcsa_bs_key_s *);
  unsigned (*bs_batch_size)(void);
  void (*bs_decrypt)(const struct dvbcsa_bs_key_s *, const struct dvbcsa_bs_batch_s *, unsigned);
  void (*bs_encrypt)(const struct dvbcsa_bs_key_s *, const struct dvbcsa_bs_batch_s *, unsigned);
} lib;
static unsigned B;

/* ---- arguments and reporting (same line format as core.c) ---------------- */
static int g_argc; static char **g_argv;
static const char *arg_s(const char *key, const char *dflt)
{
  size_t n = strlen(key);
  for (int i = 1; i < g_argc; i++)
    if (!strncmp(g_argv[i], key, n) && g_argv[i][n] == '=') return g_argv[i] + n + 1;
  return dflt;
}
static long long arg_i(const char *key, long long d) { const char *s = arg_s(key, NULL); return s ? strtoll(s, NULL, 0) : d; }

typedef struct { volatile uint64_t idx; char desc[1000]; } prog_t;
static prog_t prog_local, *prog = &prog_local;
static uint64_t case_idx, n_exec, n_steps, n_checked, n_conflicts, n_cases, n_preempt, n_all_exec, bound_hit;
static long long only_case = -1, from_case;
static int shard_i, shard_n = 1;
static volatile int tick;

static void print_stats(void)
{
  printf("STAT states %llu\nSTAT transitions %llu\nSTAT checked %llu\nSTAT programs %llu\nSTAT conflicting_bytes %llu\n"
         "STAT preempted_executions %llu\nSTAT executions_preempted_at_any_access %llu\nSTAT bound_hit %llu\n",
         (unsigned long long)n_exec, (unsigned long long)n_steps, (unsigned long long)n_checked, (unsigned long long)n_cases,
         (unsigned long long)n_conflicts, (unsigned long long)n_preempt, (unsigned long long)n_all_exec, (unsigned long long)bound_hit);
}
static char sched_desc[400];
static void fail(const char *fmt, ...)
{
  va_list ap;
  printf("FAIL %llu [%s; schedule: %s] ", (unsigned long long)case_idx, prog->desc, sched_desc);
  va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
  printf("\n");
  print_stats();
  fflush(report);
  _exit(3);
}
static int hang_limit, hang_last, hang_count;
static void on_tick(int sig)
{
  (void)sig;
  if (tick != hang_last) { hang_last = tick; hang_count = 0; return; }
  if (++hang_count >= hang_limit) {
    char m[1500];
    int n = snprintf(m, sizeof m, "FAIL %llu [%s; schedule: %s] no progress\nHANG\n", (unsigned long long)case_idx, prog->desc, sched_desc);
    if (write(fileno(report), m, n) < 0) {}
    _exit(3);
  }
}

/* ---- threads under the baton ------------------------------------------------ */
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;      /* index of this managed thread */
static __thread int in_lib __attribute__((tls_model("initial-exec")));
static int T;
static sem_t baton[MAXT], done;
static int finished[MAXT];
static void *blocked_on[MAXT];
static unsigned char *stacks[MAXT];
#define STACK (4 << 20)

/* choices of the current execution: position, taken, options */
typedef struct { int taken, n; } choice;
static choice *ch;
static size_t ch_n, ch_len, ch_cap;
static int preemptions, bound, all_points;
static unsigned long steps_in_exec;
static int crowd, crowd_lifo, crowd_started, nctx = TRK;
static unsigned long acc[MAXT], park_at[MAXT];
#define NSYNC 64
static unsigned long sync_at[NSYNC];
static int n_sync, note_sync;

static int enabled(int t) { return !finished[t] && !blocked_on[t]; }
static int choose(int n)
{
  int k = 0;
  if (n <= 1) return 0;
  if (ch_n < ch_len) k = ch[ch_n].taken;
  else {
    if (ch_len == ch_cap) {
      int was = in_lib;
      in_lib = 0;               /* this memory is ours, not the library's */
      ch = realloc(ch, (ch_cap = ch_cap ? 2 * ch_cap : 4096) * sizeof *ch);
      in_lib = was;
      if (!ch) _exit(9);
    }
    ch_len++;
    ch[ch_n].taken = 0;
  }
  ch[ch_n].n = n;
  ch_n++;
  return k;
}
static void note_switch(int from, int to, const char *why, const void *p)
{
  size_t l = strlen(sched_desc);
  if (l < sizeof sched_desc - 90)
    snprintf(sched_desc + l, sizeof sched_desc - l, "%s%d->%d %s%s%lx", l ? ", " : "", from, to, why, p ? " step " : "", p ? (unsigned long)steps_in_exec : 0ul);
}
static void switch_to(int t)
{
  int self = me;
  sem_post(&baton[t]);
  if (self >= 0 && !finished[self]) while (sem_wait(&baton[self])) {}
}
/* crowd: the next thread to run when this one stops; -1: none */
static int crowd_next(void)
{
  if (crowd_started < T) return crowd_started++;
  for (int i = 1; i <= T; i++) {
    int t = crowd_lifo ? (me + T - i) % T : (me + i) % T;
    if (t != me && enabled(t)) return t;
  }
  return -1;
}
static void crowd_point(void)
{
  acc[me]++;
  if (acc[me] == park_at[me] && crowd_started < T) switch_to(crowd_started++);
}
static void sync_point(void)
{
  if (note_sync && n_sync < NSYNC && (!n_sync || sync_at[n_sync - 1] != acc[me])) sync_at[n_sync++] = acc[me];
}
/* a point at which the running thread may be preempted */
static void point(const void *p)
{
  int opts[MAXT], n = 0;
  steps_in_exec++;
  if (crowd) { crowd_point(); return; }
  if (preemptions >= bound) return;
  opts[n++] = me;
  for (int t = 0; t < T; t++) if (t != me && enabled(t)) opts[n++] = t;
  int k = choose(n);
  if (k) {
    preemptions++;
    note_switch(me, opts[k], "preempted at", p);
    switch_to(opts[k]);
  }
}
/* the running thread cannot go on */
static void yield_blocked(const char *why)
{
  int opts[MAXT], n = 0;
  if (crowd) { int t = crowd_next(); if (t >= 0) { switch_to(t); return; } }
  for (int t = 0; t < T; t++) if (t != me && enabled(t)) opts[n++] = t;
  if (!n) {
    int left = 0;
    for (int t = 0; t < T; t++) left += !finished[t];
    if (left) fail("deadlock: every thread waits");
    sem_post(&done);
    return;
  }
  int k = choose(n);
  note_switch(me, opts[k], why, NULL);
  switch_to(opts[k]);
}

/* ---- accesses ------------------------------------------------------------------ */
typedef struct { uintptr_t g; uint8_t r[TRK], w[TRK], conflict; } gran;
#define GH (1 << 18)
static gran *gtab;
static int g_used, new_conflicts;
static gran *gfind(uintptr_t g)
{
  size_t h = (g * 0x9e3779b97f4a7c15ull) >> 46;
  for (;; h = (h + 1) & (GH - 1)) {
    if (gtab[h].g == g) return &gtab[h];
    if (!gtab[h].g) {
      if (++g_used > GH / 2) { printf("out of access table\n"); _exit(9); }
      gtab[h].g = g;
      return &gtab[h];
    }
  }
}
static int spin;
static inline void access_(const void *p, size_t n, int write)
{
  uintptr_t a = (uintptr_t)p, e = a + n;
  int hit = 0;
  if (me < 0 || !in_lib || n == 0) return;
  if (a >= (uintptr_t)stacks[me] && a < (uintptr_t)stacks[me] + STACK) return;
  n_steps++; tick++;
  if (crowd) { crowd_point(); return; }
  for (uintptr_t g = a & ~7ul; g < e; g += 8) {
    gran *x = gfind(g);
    uint8_t m = 0xff, c = 0;
    if (g < a) m &= 0xff << (a - g);
    if (g + 8 > e) m &= 0xff >> (g + 8 - e);
    if (write) x->w[me] |= m; else x->r[me] |= m;
    for (int t = 0; t < T; t++) if (t != me) c |= (x->w[me] & (x->w[t] | x->r[t])) | (x->r[me] & x->w[t]);
    if (c & ~x->conflict) { n_conflicts += __builtin_popcount(c & ~x->conflict); x->conflict |= c; new_conflicts = 1; }
    if (x->conflict & m) hit = 1;
  }
  if (hit || all_points) point(p);
}
#define RW(n) \
  void __tsan_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_volatile_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); } \
  void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 8, 1); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0); }

/* atomics: always points; a thread that does nothing else for long lets others run */
static void atomic_point(void *p, size_t n, int write)
{
  if (me < 0 || !in_lib) return;
  access_(p, n, write);
  sync_point();
  if (++spin > 200) { spin = 0; if (T > 1) { int o = 0; for (int t = 0; t < T; t++) o += t != me && enabled(t); if (o) yield_blocked("spinning"); } }
}
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 0); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); __atomic_store_n(a, v, 5); } \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_exchange_n(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_fetch_add(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_fetch_sub(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_fetch_and(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_fetch_or(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_fetch_xor(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; atomic_point((void *)a, sizeof *a, 1); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; atomic_point((void *)a, sizeof *a, 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; atomic_point((void *)a, sizeof *a, 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; atomic_point((void *)a, sizeof *a, 1); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* string functions the library calls are accesses too */
void *memcpy(void *restrict d, const void *restrict s, size_t n)
{
  void *r = d;
  if (me >= 0 && in_lib) { access_(s, n, 0); access_(d, n, 1); }
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n)
{
  unsigned char *x = d;
  const unsigned char *y = s;
  if (me >= 0 && in_lib) { access_(s, n, 0); access_(d, n, 1); }
  if (x <= y) for (size_t i = 0; i < n; i++) { x[i] = y[i]; __asm__ volatile("" ::: "memory"); }
  else for (size_t i = n; i-- > 0;) { x[i] = y[i]; __asm__ volatile("" ::: "memory"); }
  return d;
}
void *memset(void *d, int c, size_t n)
{
  void *r = d;
  if (me >= 0 && in_lib) access_(d, n, 1);
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

/* ---- synchronisation the library might use -------------------------------------- */
static struct { void *m; int owner; } mtx[1024];
static int *mslot(void *m)
{
  for (int i = 0; i < 1024; i++) {
    if (mtx[i].m == m) return &mtx[i].owner;
    if (!mtx[i].m) { mtx[i].m = m; mtx[i].owner = -1; return &mtx[i].owner; }
  }
  _exit(9);
}
static int managed_lock(void *m)
{
  int *o = mslot(m);
  point(m); sync_point();
  while (*o >= 0) { blocked_on[me] = m; yield_blocked("waits for a lock"); }
  *o = me;
  return 0;
}
static int managed_unlock(void *m)
{
  *mslot(m) = -1;
  for (int t = 0; t < T; t++) if (blocked_on[t] == m) blocked_on[t] = NULL;
  point(m); sync_point();
  return 0;
}
#define NEXT(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
int pthread_mutex_lock(pthread_mutex_t *m) { if (me >= 0 && in_lib) return managed_lock(m); return NEXT(pthread_mutex_lock)(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (me >= 0 && in_lib) return managed_unlock(m); return NEXT(pthread_mutex_unlock)(m); }
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (me >= 0 && in_lib) { point(m); if (*mslot(m) >= 0) return EBUSY; *mslot(m) = me; return 0; }
  return NEXT(pthread_mutex_trylock)(m);
}
int pthread_spin_lock(pthread_spinlock_t *m) { if (me >= 0 && in_lib) return managed_lock((void *)m); return NEXT(pthread_spin_lock)(m); }
int pthread_spin_unlock(pthread_spinlock_t *m) { if (me >= 0 && in_lib) return managed_unlock((void *)m); return NEXT(pthread_spin_unlock)(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (me >= 0 && in_lib) return managed_lock(m); return NEXT(pthread_rwlock_rdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (me >= 0 && in_lib) return managed_lock(m); return NEXT(pthread_rwlock_wrlock)(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (me >= 0 && in_lib) return managed_unlock(m); return NEXT(pthread_rwlock_unlock)(m); }
int pthread_once(pthread_once_t *o, void (*f)(void))
{
  if (!(me >= 0 && in_lib)) return NEXT(pthread_once)(o, f);
  managed_lock(o);
  if (*(int *)o == 0) { f(); *(int *)o = 2; }
  managed_unlock(o);
  return 0;
}
int sched_yield(void) { if (me >= 0 && in_lib) { spin = 1000; return 0; } return 0; }

/* ---- memory the library allocates: per thread, never reused in one execution ------ */
#define ARENA (8 << 20)
static unsigned char *arena[MAXT + 1];
static size_t a_used[MAXT + 1], a_keep[MAXT + 1];
static unsigned char *a_copy[MAXT + 1];
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static void *bump(size_t n, size_t al)
{
  int t = me >= 0 ? me : MAXT;
  size_t o = (a_used[t] + al + 64 - 1) & ~(al - 1);
  if (me >= 0) sync_point();
  if (o + n > ARENA) return NULL;
  a_used[t] = o + n;
  return arena[t] + o;
}
static int is_arena(void *p) { for (int i = 0; i <= MAXT; i++) if ((unsigned char *)p >= arena[i] && (unsigned char *)p < arena[i] + ARENA) return 1; return 0; }
void *malloc(size_t n) { return in_lib ? bump(n, 16) : __libc_malloc(n); }
void free(void *p) { if (p && !is_arena(p)) __libc_free(p); }
void *calloc(size_t a, size_t b) { if (!in_lib) return __libc_calloc(a, b); void *p = bump(a * b, 16); int i = in_lib; in_lib = 0; if (p) memset(p, 0, a * b); in_lib = i; return p; }
void *realloc(void *p, size_t n) { if (!in_lib && !(p && is_arena(p))) return __libc_realloc(p, n); int i = in_lib; void *q = bump(n, 16); in_lib = 0; if (p && q) memmove(q, p, n); in_lib = i; return q; }
void *memalign(size_t a, size_t n) { return in_lib ? bump(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }

/* ---- thread programs ----------------------------------------------------------------- */
enum { K_S_LIFE, K_S_ENC, K_S_DEC, K_S_SET, K_B_LIFE, K_B_ENC1, K_B_DEC1, K_B_ENC, K_B_DEC, K_B_SET, K_SIZE, K_S_PENC, K_B_PENC, K_B_PDEC, K_N };
static const char *const kname[] = {
  "single: allocate, set, encrypt, decrypt, free", "single: encrypt, shared context", "single: decrypt, shared context", "single: set own context twice, encrypt",
  "parallel: allocate, set, encrypt, decrypt, free", "parallel: encrypt one packet, shared context", "parallel: decrypt one packet, shared context",
  "parallel: encrypt full batch, shared context", "parallel: decrypt full batch, shared context", "parallel: set own context twice, encrypt",
  "batch size", "single: encrypt, own context", "parallel: encrypt mixed lengths, own context", "parallel: decrypt mixed lengths, own context" };
static const uint8_t cw_sh[8] = { 0x13,0x57,0x9b,0xdf,0x24,0x68,0xac,0xe0 };
static uint8_t cw_own[MAXT][2][8] = {
  { { 1,2,3,4,5,6,7,8 }, { 0xff,0x80,1,0x7f,0xc3,0x3c,0xa5,0x5a } }, { { 0xaa,0xbb,0xcc,0xdd,0x11,0x22,0x33,0x44 }, { 9,8,7,6,5,4,3,2 } },
  { { 0x80,0,0,1,0,0x80,0,1 }, { 0xfe,0xed,0xfa,0xce,0xca,0xfe,0xba,0xbe } } };
static struct dvbcsa_key_s *ks_sh, *ks_own[MAXT];
static struct dvbcsa_bs_key_s *kb_sh, *kb_own[MAXT];
static int kind_of[MAXT];

static uint64_t mix64(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ x >> 27) * 0x94d049bb133111ebull;
  return x ^ x >> 31;
}
#define PB 1024
/* the packets of all threads lie back to back in one place, the threads' in turn: what
 * a call does to the bytes beside its own packets, it does to another thread's */
static uint8_t pool[1 << 18] __attribute__((aligned(4096))), *pk[MAXT][PB];
static struct dvbcsa_bs_batch_s batch[MAXT][PB + 1];
static uint8_t in_[MAXT][PB][184];
/* expected results: [thread][key 0 shared,1,2][direction][packet] for the length in use */
static struct { unsigned n, M, len[PB]; uint8_t (*out)[2][PB][184]; } bs_shape[MAXT][3];   /* 0: one packet, 1: full, 2: mixed */
static struct { unsigned len; uint8_t out[3][2][64]; } s_shape[MAXT];
static const unsigned Mof[3] = { 16, 24, 40 };

static void prepare(void)
{
  for (int t = TRK; t < nctx; t++) for (int k = 0; k < 2; k++) { uint64_t x = mix64(777 + 2 * t + k); memcpy(cw_own[t][k], &x, 8); }
  for (int t = 0; t < nctx; t++) {
    ref_key rk[3];
    ref_set(&rk[0], cw_sh); ref_set(&rk[1], cw_own[t][0]); ref_set(&rk[2], cw_own[t][1]);
    for (unsigned p = 0; p < B; p++) for (unsigned i = 0; i < 184; i++) in_[t][p][i] = mix64(t * 100000 + p * 200 + i);
    s_shape[t].len = 21 + t % 24;
    for (int k = 0; k < 3; k++) for (int d = 0; d < 2; d++) {
      memcpy(s_shape[t].out[k][d], in_[t][0], s_shape[t].len);
      (d ? ref_decrypt : ref_encrypt)(&rk[k], s_shape[t].out[k][d], s_shape[t].len);
    }
    for (int s = 0; s < 3; s++) {
      bs_shape[t][s].n = s == 0 ? 1 : s == 1 ? (t < TRK || B < 5 ? B : 5) : 3u + t % TRK;
      bs_shape[t][s].M = Mof[s];
      bs_shape[t][s].out = calloc(3, sizeof *bs_shape[t][s].out);
      for (unsigned p = 0; p < bs_shape[t][s].n; p++) {
        unsigned l = bs_shape[t][s].len[p] = s == 2 ? (p * 11 + t) % 45 : s == 1 ? 24 - p % 5 : 16;
        unsigned e = l < Mof[s] ? l : Mof[s];
        for (int k = 0; k < 3; k++) for (int d = 0; d < 2; d++) {
          memcpy(bs_shape[t][s].out[k][d][p], in_[t][p], 184);
          (d ? ref_decrypt : ref_encrypt)(&rk[k], bs_shape[t][s].out[k][d][p], e);
        }
      }
    }
  }
}
#define L(stmt) do { in_lib = 1; stmt; in_lib = 0; } while (0)
static void s_run(int t, int k, int d, struct dvbcsa_key_s *key)
{
  unsigned len = s_shape[t].len;
  memcpy(pk[t][0], in_[t][0], len);
  if (d) L(lib.decrypt(key, pk[t][0], len)); else L(lib.encrypt(key, pk[t][0], len));
  n_checked++;
  if (memcmp(pk[t][0], s_shape[t].out[k][d], len)) fail("thread %d (%s): the single-packet %s gave a wrong result", t, kname[kind_of[t]], d ? "decrypt" : "encrypt");
}
static void b_run(int t, int k, int d, int s, struct dvbcsa_bs_key_s *key)
{
  unsigned n = bs_shape[t][s].n;
  for (unsigned p = 0; p < n; p++) {
    memcpy(pk[t][p], in_[t][p], bs_shape[t][s].len[p]);
    batch[t][p].data = pk[t][p]; batch[t][p].len = bs_shape[t][s].len[p];
  }
  batch[t][n].data = NULL; batch[t][n].len = 0;
  if (d) L(lib.bs_decrypt(key, batch[t], bs_shape[t][s].M)); else L(lib.bs_encrypt(key, batch[t], bs_shape[t][s].M));
  n_checked++;
  for (unsigned p = 0; p < n; p++)
    if (memcmp(pk[t][p], bs_shape[t][s].out[k][d][p], bs_shape[t][s].len[p])) fail("thread %d (%s): the parallel %s gave a wrong result for packet %u of %u", t, kname[kind_of[t]], d ? "decrypt" : "encrypt", p, n);
}
static void lay_out(void)
{
  uint8_t *at = pool + 8;
  for (unsigned p = 0; p < PB; p++)
    for (int t = 0; t < T; t++) {
      int s = -1;
      unsigned len = 0;
      switch (kind_of[t]) {
        case K_S_LIFE: case K_S_ENC: case K_S_DEC: case K_S_SET: case K_S_PENC: if (!p) len = s_shape[t].len; break;
        case K_SIZE: break;
        case K_B_LIFE: case K_B_ENC1: case K_B_DEC1: case K_B_SET: s = 0; break;
        case K_B_ENC: case K_B_DEC: s = 1; break;
        default: s = 2;
      }
      if (s >= 0 && p < bs_shape[t][s].n) len = bs_shape[t][s].len[p];
      pk[t][p] = at;
      at += len;
      if (at > pool + sizeof pool) { printf("out of packet memory\n"); _exit(9); }
    }
}
static void body(int t)
{
  struct dvbcsa_key_s *s = NULL;
  struct dvbcsa_bs_key_s *b = NULL;
  unsigned n = 0;
  switch (kind_of[t]) {
    case K_S_LIFE:
      L(s = lib.key_alloc()); if (!s) fail("thread %d: allocation failed", t);
      L(lib.key_set(cw_own[t][0], s)); s_run(t, 1, 0, s); s_run(t, 1, 1, s); L(lib.key_free(s)); break;
    case K_S_ENC: s_run(t, 0, 0, ks_sh); break;
    case K_S_DEC: s_run(t, 0, 1, ks_sh); break;
    case K_S_SET: L(lib.key_set(cw_own[t][0], ks_own[t])); L(lib.key_set(cw_own[t][1], ks_own[t])); s_run(t, 2, 0, ks_own[t]); break;
    case K_B_LIFE:
      L(b = lib.bs_key_alloc()); if (!b) fail("thread %d: allocation failed", t);
      L(lib.bs_key_set(cw_own[t][0], b)); b_run(t, 1, 0, 0, b); b_run(t, 1, 1, 0, b); L(lib.bs_key_free(b)); break;
    case K_B_ENC1: b_run(t, 0, 0, 0, kb_sh); break;
    case K_B_DEC1: b_run(t, 0, 1, 0, kb_sh); break;
    case K_B_ENC: b_run(t, 0, 0, 1, kb_sh); break;
    case K_B_DEC: b_run(t, 0, 1, 1, kb_sh); break;
    case K_B_SET: L(lib.bs_key_set(cw_own[t][0], kb_own[t])); L(lib.bs_key_set(cw_own[t][1], kb_own[t])); b_run(t, 2, 0, 0, kb_own[t]); break;
    case K_SIZE: L(n = lib.bs_batch_size()); n_checked++; if (n != B) fail("thread %d: dvbcsa_bs_batch_size() gave %u", t, n); break;
    case K_S_PENC: s_run(t, 1, 0, ks_own[t]); break;
    case K_B_PENC: b_run(t, 1, 0, 2, kb_own[t]); break;
    default: b_run(t, 1, 1, 2, kb_own[t]); break;
  }
}
static void *thread_main(void *v)
{
  int t = (int)(intptr_t)v;
  me = t;
  while (sem_wait(&baton[t])) {}
  body(t);
  finished[t] = 1;
  { int left = 0; for (int i = 0; i < T; i++) left += !finished[i];
    if (left) yield_blocked("ended"); else sem_post(&done); }
  return NULL;
}

/* ---- library state ---------------------------------------------------------------------- */
static struct { unsigned char *p, *copy[2]; size_t n; } reg[8];
static int nreg;
static uintptr_t lib_base;
static int on_phdr(struct dl_phdr_info *i, size_t sz, void *v)
{
  (void)sz; (void)v;
  if (i->dlpi_addr != lib_base) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && nreg < 8) {
      reg[nreg].p = (unsigned char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      reg[nreg].n = i->dlpi_phdr[k].p_memsz;
      nreg++;
    }
  return 1;
}
static void save(int w)
{
  for (int i = 0; i < nreg; i++) { if (!reg[i].copy[w]) reg[i].copy[w] = malloc(reg[i].n); memcpy(reg[i].copy[w], reg[i].p, reg[i].n); }
}
static void restore(int w)
{
  for (int i = 0; i < nreg; i++)
    for (size_t j = 0; j < reg[i].n; j++)     /* (the relocated part may be read-only: write only what differs) */
      if (reg[i].p[j] != reg[i].copy[w][j]) reg[i].p[j] = reg[i].copy[w][j];
  for (int i = 0; i <= MAXT; i++) { a_used[i] = a_keep[i]; memcpy(arena[i], a_copy[i], a_keep[i]); }
  for (int i = 0; i < 1024 && mtx[i].m; i++) mtx[i].owner = -1;
}

static void execute(int w, int first_choice_only)
{
  pthread_t th[MAXT];
  pthread_attr_t at;
  (void)first_choice_only;
  restore(w);
  lay_out();
  ch_n = 0; preemptions = 0; steps_in_exec = 0; spin = 0; sched_desc[0] = 0;
  pthread_attr_init(&at);
  for (int t = 0; t < T; t++) { finished[t] = 0; blocked_on[t] = NULL; sem_init(&baton[t], 0, 0); }
  sem_init(&done, 0, 0);
  for (int t = 0; t < T; t++) {
    pthread_attr_setstack(&at, stacks[t], STACK);
    if (pthread_create(&th[t], &at, thread_main, (void *)(intptr_t)t)) { perror("pthread_create"); _exit(9); }
  }
  if (crowd) { for (int t = 0; t < T; t++) acc[t] = 0; crowd_started = 1; sem_post(&baton[0]); }
  else { int k = choose(T); note_switch(-1, k, "first", NULL); sem_post(&baton[k]); }
  while (sem_wait(&done)) {}
  for (int t = 0; t < T; t++) pthread_join(th[t], NULL);
  pthread_attr_destroy(&at);
  n_exec++; tick++;
  if (preemptions) n_preempt++;
}
/* advance to the next choice sequence; 0 when all are done */
static int next(void)
{
  ch_len = ch_n;
  while (ch_len > 0) {
    if (ch[ch_len - 1].taken + 1 < ch[ch_len - 1].n) { ch[ch_len - 1].taken++; return 1; }
    ch_len--;
  }
  return 0;
}
static void explore(int w, int c, unsigned long maxexec)
{
  unsigned long n = 0;
  for (;;) {
    int again = 0;
    bound = c;
    ch_len = 0;
    do {
      new_conflicts = 0;
      execute(w, 0);
      n++;
      if (new_conflicts && !all_points) { again = 1; break; }   /* more points than thought: start over */
      if (n > maxexec) { bound_hit++; return; }
    } while (next());
    if (!again) break;
  }
}

static void on_fault(int sig, siginfo_t *si, void *uc)
{
  (void)uc;
  printf("FAIL %llu [%s; schedule: %s] signal %d at %p\n", (unsigned long long)case_idx, prog->desc, sched_desc, sig, si->si_addr);
  fflush(report);
  _exit(3);
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
  (void)fn;
  fail("assertion %s failed at %s:%u", e, f, l);
  _exit(3);
}

static int take_case(void)
{
  case_idx++;
  if ((long long)case_idx < from_case) return 0;
  return only_case >= 0 ? case_idx == (uint64_t)only_case : case_idx % shard_n == (uint64_t)shard_i % shard_n;
}
static const char *state_name;
static void run_case(int w)
{
  int maxb = arg_i("bound", 2), all = arg_i("all", 1);
  unsigned long maxexec = arg_i("maxexec", 20000);
  prog->idx = case_idx;
  n_cases++;
  snprintf(prog->desc, sizeof prog->desc, "%s, %d threads: {%s} {%s}%s%s%s", state_name, T, kname[kind_of[0]], T > 1 ? kname[kind_of[1]] : "-",
           T > 2 ? " {" : "", T > 2 ? kname[kind_of[2]] : "", T > 2 ? "}" : "");
  memset(gtab, 0, GH * sizeof *gtab); g_used = 0;
  uint64_t c0 = n_conflicts;
  all_points = 0;
  explore(w, 0, maxexec);               /* every order of whole programs */
  if (n_conflicts != c0)
    for (int c = 1; c <= maxb; c++) explore(w, c, maxexec);
  if (all) {
    uint64_t e0 = n_exec;
    all_points = 1;
    explore(w, 1, arg_i("allexec", 3000));
    n_all_exec += n_exec - e0;
    all_points = 0;
  }
}

/* positions to stop at: around both ends and every synchronising operation, and a grid */
static unsigned long kpos[K_N][NSYNC * 3 + 64];
static int n_kpos[K_N];
static void find_positions(int w, int kind)
{
  unsigned long a;
  int n = 0;
  unsigned long *k = kpos[kind];
  T = 1; kind_of[0] = kind; park_at[0] = 0;
  n_sync = 0; note_sync = 1;
  execute(w, 0);
  note_sync = 0;
  a = acc[0];
  for (unsigned long i = 1; i <= 4; i++) k[n++] = i;
  for (unsigned long i = 0; i < 4; i++) if (a > 8 + i) k[n++] = a - i;
  for (unsigned long i = 1; i < 24; i++) k[n++] = a * i / 24;
  for (int i = 0; i < n_sync; i++) for (int d = 0; d < 3; d++) k[n++] = sync_at[i] + d;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (k[j] < k[i]) { unsigned long x = k[i]; k[i] = k[j]; k[j] = x; }
  n_kpos[kind] = 0;
  for (int i = 0; i < n; i++) if (k[i] && (!n_kpos[kind] || k[n_kpos[kind] - 1] != k[i])) k[n_kpos[kind]++] = k[i];
}
static void run_crowd(int w, int ka, int kb)
{
  prog->idx = case_idx;
  n_cases++;
  find_positions(w, ka); find_positions(w, kb);
  T = MAXT;
  for (int i = 0; i < n_kpos[ka]; i += arg_i("step", 1))
    for (crowd_lifo = 0; crowd_lifo < 2; crowd_lifo++) {
      unsigned long pa = kpos[ka][i], pb = n_kpos[kb] ? kpos[kb][i * n_kpos[kb] / n_kpos[ka]] : 1;
      for (int t = 0; t < T; t++) { kind_of[t] = t & 1 ? kb : ka; park_at[t] = t & 1 ? pb : pa; }
      snprintf(prog->desc, sizeof prog->desc, "%s, crowd of %d threads, alternately {%s} stopped at step %lu and {%s} at step %lu, resumed %s", state_name, T,
               kname[ka], pa, kname[kb], pb, crowd_lifo ? "last first" : "first first");
      execute(w, 0);
    }
}

static void setup_contexts(int alloc)
{
  in_lib = 1;
  if (alloc) { ks_sh = lib.key_alloc(); kb_sh = lib.bs_key_alloc(); }
  lib.key_set(cw_sh, ks_sh); lib.bs_key_set(cw_sh, kb_sh);
  for (int t = 0; t < nctx; t++) {
    if (alloc) { ks_own[t] = lib.key_alloc(); kb_own[t] = lib.bs_key_alloc(); }
    lib.key_set(cw_own[t][0], ks_own[t]); lib.bs_key_set(cw_own[t][0], kb_own[t]);
  }
  in_lib = 0;
}

int main(int argc, char **argv)
{
  const char *pf, *lp;
  struct sigaction sa;
  void *h;
  struct link_map *lm;
  g_argc = argc; g_argv = argv;
  {
    int n = open("/dev/null", O_WRONLY), fd = dup(1);
    report = fdopen(fd < 0 ? 1 : fd, "w");
    if (n >= 0 && fd >= 0) { dup2(n, 1); close(n); }
  }
  shard_i = arg_i("shard", 0); shard_n = arg_i("shards", 1); only_case = arg_i("only", -1); from_case = arg_i("from", 0);
  hang_limit = arg_i("hang", 60);
  crowd = arg_i("crowd", 0);
  if (crowd) nctx = MAXT;
  if (ref_selftest()) return 9;
  if ((pf = arg_s("progress", NULL))) {
    int fd = open(pf, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && !ftruncate(fd, sizeof(prog_t))) {
      prog_t *p = mmap(NULL, sizeof(prog_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) prog = p;
      close(fd);
    }
  }
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, NULL);
  struct itimerval it = { { 1, 0 }, { 1, 0 } };
  setitimer(ITIMER_PROF, &it, NULL);
  for (int i = 0; i <= MAXT; i++) arena[i] = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXT; i++) stacks[i] = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gtab = calloc(GH, sizeof *gtab);
  lp = arg_s("lib", NULL);
  if (!lp || !(h = dlopen(lp, RTLD_NOW | RTLD_LOCAL))) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 9; }
#define S(f) if (!(*(void **)&lib.f = dlsym(h, "dvbcsa_" #f))) { fprintf(stderr, "no dvbcsa_" #f "\n"); return 9; }
  S(key_alloc) S(key_free) S(key_set) S(decrypt) S(encrypt)
  S(bs_key_alloc) S(bs_key_free) S(bs_key_set) S(bs_batch_size) S(bs_decrypt) S(bs_encrypt)
  dlinfo(h, RTLD_DI_LINKMAP, &lm);
  lib_base = lm->l_addr;
  dl_iterate_phdr(on_phdr, NULL);
  save(0); save(1);                     /* pristine: no call made yet */
  B = lib.bs_batch_size();
  if (B == 0 || B > PB) { printf("FAIL 0 [batch size] %u\n", B); return 3; }
  prepare();

  for (int w = 0; w < 3; w++) {
    static const char *const wname[] = { "untouched library", "contexts just set up", "everything used before" };
    static const int life[] = { K_S_LIFE, K_B_LIFE, K_SIZE };
    state_name = wname[w];
    snprintf(prog->desc, sizeof prog->desc, "context setup");
    for (int i = 0; i <= MAXT; i++) a_used[i] = 0;
    for (int i = 0; i < nreg; i++) for (size_t j = 0; j < reg[i].n; j++) if (reg[i].p[j] != reg[i].copy[0][j]) reg[i].p[j] = reg[i].copy[0][j];
    for (int i = 0; i < 1024 && mtx[i].m; i++) mtx[i].owner = -1;
    if (w) setup_contexts(1);
    if (w == 2) for (int k = 0; k < K_N; k++) { T = 1; kind_of[0] = k; lay_out(); body(0); setup_contexts(0); }
    for (int i = 0; i <= MAXT; i++) {
      a_keep[i] = a_used[i];
      free(a_copy[i]);
      a_copy[i] = malloc(a_keep[i] + 1);
      memcpy(a_copy[i], arena[i], a_keep[i]);
    }
    save(1);
    if (crowd) {
      for (int a = 0; a < (w ? K_N : 3); a++)
        for (int b = a; b < (arg_i("pairs", 0) ? (w ? K_N : 3) : a + 1); b++)
          if (take_case()) run_crowd(1, w ? a : life[a], w ? b : life[b]);
      continue;
    }
    T = 2;
    for (int a = 0; a < (w ? K_N : 3); a++)
      for (int b = a; b < (w ? K_N : 3); b++)
        if (take_case()) { kind_of[0] = w ? a : life[a]; kind_of[1] = w ? b : life[b]; run_case(1); }
    if (arg_i("three", 1)) {
      static const int k3[] = { K_S_LIFE, K_B_LIFE, K_SIZE, K_S_ENC, K_S_SET, K_B_ENC1, K_B_DEC1, K_B_SET };
      int n3 = w ? 8 : 3;
      T = 3;
      for (int a = 0; a < n3; a++) for (int b = a; b < n3; b++) for (int c = b; c < n3; c++)
        if (take_case()) { kind_of[0] = k3[a]; kind_of[1] = k3[b]; kind_of[2] = k3[c]; run_case(1); }
    }
  }
  snprintf(sched_desc, sizeof sched_desc, "-");
  if (n_cases) printf("SAMPLE last program: %s; %llu executions so far, %llu conflicting bytes\n", prog->desc, (unsigned long long)n_exec, (unsigned long long)n_conflicts);
  print_stats();
  printf("DONE %llu\n", (unsigned long long)case_idx);
  fflush(report);
  _exit(0);
}
