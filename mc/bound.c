/* What a call does besides giving its result.
 * steps: builds that report every basic block entered; a call may enter at most
 *        a number of them that is linear in the bytes it works on, and use a
 *        bounded amount of stack.
 * quiet: system calls made inside library calls are trapped (syscall user
 *        dispatch); only those that obtain memory or synchronise are allowed,
 *        and process-wide state that needs no system call is compared. */
#include "mc.h"
#include <unistd.h>
#include <errno.h>
#include <locale.h>
#include <stdio_ext.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/prctl.h>

/* ---- the workload ---------------------------------------------------------- */
static uint64_t work;           /* bytes the next call works on */
static uint8_t *big;
static const uint8_t *pat(unsigned p)
{
  static uint8_t b[8][192];
  for (unsigned i = 0; i < 192; i++)
    b[p][i] = p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? i : p == 3 ? 0x47 : p == 4 ? (i & 1 ? 0xff : 0) : mix64(i + 1000 * p);
  return b[p];
}
static void one(unsigned len, unsigned off, unsigned p, skey *k)
{
  const uint8_t *s = pat(p);
  for (int dir = 0; dir < 2; dir++) {
    for (unsigned j = 0; j < len; j += 184) memcpy(big + off + j, s, len - j < 184 ? len - j : 184);
    work = len;
    m_crypt(dir, k, big + off, len);
  }
}
static void workload(unsigned biglen)
{
  unsigned step = arg_i("step", 1), us = arg_i("ustep", 1);
  static uint8_t buf[1024][256];
  static batch_t t[1025];
  uint8_t cw[8];
  skey *k; bkey *q;
  big = mmap(NULL, (size_t)biglen + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (big == MAP_FAILED) { perror("mmap"); _exit(9); }
  k = m_key_alloc(); q = m_bs_key_alloc();
  work = 0;
  if (case_begin("freeing null, allocating and freeing twenty contexts")) {
    skey *ks[20]; bkey *qs[20];
    m_key_free(NULL); m_bs_key_free(NULL);
    for (int i = 0; i < 20; i++) { ks[i] = m_key_alloc(); qs[i] = m_bs_key_alloc(); }
    for (int i = 0; i < 20; i++) { m_key_free(ks[i]); m_bs_key_free(qs[i]); }
    al_purge();
  }
  for (unsigned m = 1; m < 16; m++)
    if (case_begin("allocating contexts, requests %#x failing", m)) {
      skey *a; bkey *b;
      al_reset_fail(); al_failmask = m;
      l_key_alloc(&a);
      al_reset_fail(); al_failmask = m;
      l_bs_key_alloc(&b);
      al_reset_fail();
      m_key_free(a); m_bs_key_free(b);
    }
  /* control words */
  for (unsigned i = 0; special_cw(i, cw); i++) {
    if (!case_begin("structured control word %u", i)) continue;
    work = 0; m_key_set(cw, k); m_bs_key_set(cw, q);
    one(24, i & 7, i % 7, k);
  }
  for (unsigned u = 0; u < 256; u += us) {
    if (!case_begin("pairs of values, group %u", u)) continue;
    pair_cw(u, cw);
    work = 0; m_key_set(cw, k); m_bs_key_set(cw, q);
    for (unsigned v = 0; v < 256; v++) {
      pair_payload(u, v, buf[v], 184);
      if (v % 4 == u % 4)
        for (int dir = 0; dir < 2; dir++) { work = 184; memcpy(big, buf[v], 184); m_crypt(dir, k, big, 184); }
    }
    for (unsigned v = 0; v < 256; v += B) {
      unsigned n = B < 256 - v ? B : 256 - v;
      for (unsigned i = 0; i < n; i++) t[i] = (batch_t){ buf[v + i], 184 };
      t[n] = (batch_t){ NULL, TERMLEN };
      work = 184 * B; m_bs_crypt(u & 1, q, t, 184);
    }
  }
  geo_cw(0, cw);
  work = 0; m_key_set(cw, k); m_bs_key_set(cw, q);
  /* lengths */
  for (unsigned len = 0; len <= 1030; len += step)
    if (case_begin("single-packet calls, %u bytes", len))
      for (unsigned p = 0; p < 7; p++) one(len, (len + p) & 7, p, k);
  for (unsigned e = 11; (1u << e) <= biglen; e++)
    for (int d = -9; d <= 9; d += 1 + (d > -2 && d < 1 ? 0 : e > 16 ? 6 : 2))
      if ((1u << e) + d <= biglen + 16 && case_begin("single-packet calls, 2^%u%+d bytes", e, d)) one((1u << e) + d, d & 7, 6, k);
  /* batches */
  for (unsigned M = 0; M <= 184; M += 8)
    for (unsigned s = 0; s < 24; s++) {
      unsigned n = s < 6 ? (unsigned[]){ 0, 1, 2, B / 2, B - 1, B }[s] : s < 18 ? B : (M + s * 7) % (B + 1);
      if ((s + M / 8) % step) continue;
      if (n > B) n = B;
      if (!case_begin("parallel calls, maximum length %u, %u packets, mixture %u", M, n, s)) continue;
      for (int dir = 0; dir < 2; dir++) {
        for (unsigned i = 0; i < n; i++) {
          memcpy(buf[i] + 8, pat((i + s) % 7), 192);
          t[i] = (batch_t){ buf[i] + 8 + (s & 7), s == 6 ? 184 : s == 7 ? 0 : s == 8 ? 7 : s == 9 ? M : (i * (2 * s + 1) + s * M) % 190 };
        }
        t[n] = (batch_t){ NULL, TERMLEN };
        work = (uint64_t)M * B; m_bs_crypt(dir, q, t, M);
      }
    }
  m_key_free(k); m_bs_key_free(q);
}

/* ---- steps ------------------------------------------------------------------- */
/* several hundred times what the calls take */
#define STEPS0 4000000ull
#define STEPS1 2000ull
#define STACK 1000000ul
static uint64_t nsteps, limit = ~0ull, worst, total;
static uintptr_t sp0, splow;
static unsigned long deepest;
__attribute__((no_stack_protector)) void __sanitizer_cov_trace_pc(void)
{
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (!in_lib) return;
  if (sp < splow) splow = sp;
  if (++nsteps > limit) { limit = ~0ull; siglongjmp(lib_jb, STUCK); }
}
/* what the library's string functions are called in these builds: a step for each eight bytes */
static void bytes(size_t n)
{
  if (!in_lib) return;
  nsteps += n / 8;
  if (nsteps > limit) { limit = ~0ull; siglongjmp(lib_jb, STUCK); }
}
void *mcs_memcpy(void *d, const void *s, size_t n) { bytes(n); return memcpy(d, s, n); }
void *mcs_memmove(void *d, const void *s, size_t n) { bytes(n); return memmove(d, s, n); }
void *mcs_memset(void *d, int c, size_t n) { bytes(n); return memset(d, c, n); }
int mcs_memcmp(const void *a, const void *b, size_t n) { bytes(n); return memcmp(a, b, n); }
static void steps_begin(void)
{
  sp0 = splow = (uintptr_t)__builtin_frame_address(0);
  nsteps = 0;
  limit = STEPS0 + STEPS1 * work;
}
static void steps_end(int r)
{
  if (r == STUCK) fail("the call has entered %llu basic blocks on %llu bytes and has not returned", (unsigned long long)nsteps, (unsigned long long)work);
  if (r) return;
  st_checked++;
  total += nsteps;
  if (nsteps * 1000 / (2000 + work) > worst) worst = nsteps * 1000 / (2000 + work);
  if (sp0 - splow > deepest) deepest = sp0 - splow;
  if (sp0 - splow > STACK) fail("the call used %lu bytes of stack on %llu bytes of payload", (unsigned long)(sp0 - splow), (unsigned long long)work);
}
static void steps(void)
{
  uint64_t first[6] = { 0 };
  unsigned reps = arg_i("reps", 20000);
  static uint8_t d[8][192];
  static batch_t t[9];
  uint8_t cw[8];
  mon_begin = steps_begin; mon_end = steps_end;
  workload(arg_i("big", 1 << 22));
  /* four times the payload: at most four times the work (and a constant), and no more stack;
   * said to grow when it does so at two fourfold increases in succession */
  {
    enum { NL = 12 };
    unsigned top = arg_i("big", 1 << 22);
    for (int dir = 0; dir < 2; dir++)
      for (unsigned off = 0; off < 8; off += 3) {
        uint64_t n[NL] = { 0 }, sp[NL] = { 0 };
        skey *k;
        if (!case_begin("%s of 4^k%+d bytes: growth of work and stack", dirname_(dir), (int)off - 3)) continue;
        k = m_key_alloc();
        geo_cw(1, cw); m_key_set(cw, k);
        for (unsigned e = 5; e < NL + 5 && 1u << 2 * e <= top; e++) {
          work = (1u << 2 * e) + off - 3;
          m_crypt(dir, k, big + off, work);
          n[e - 5] = nsteps; sp[e - 5] = sp0 - splow;
          if (e < 7) continue;
          for (int j = 1; j < 3; j++) if (n[e - 5 - j + 1] <= 5 * n[e - 5 - j] + 20000) goto work_ok;
          fail("%s: %llu steps for %llu bytes, %llu for a quarter, %llu for a sixteenth", dirname_(dir), (unsigned long long)n[e - 5], (unsigned long long)work, (unsigned long long)n[e - 6], (unsigned long long)n[e - 7]);
        work_ok:
          for (int j = 1; j < 3; j++) if (sp[e - 5 - j + 1] < sp[e - 5 - j] + 1024) goto stack_ok;
          fail("%s: %llu bytes of stack for %llu bytes, %llu for a quarter, %llu for a sixteenth", dirname_(dir), (unsigned long long)sp[e - 5], (unsigned long long)work, (unsigned long long)sp[e - 6], (unsigned long long)sp[e - 7]);
        stack_ok: ;
        }
        m_key_free(k);
      }
  }
  /* the same calls over and over do not come to take longer */
  if (case_begin("the same calls %u times over, always with new contents", reps)) {
    skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
    for (unsigned i = 0; i < 8; i++) t[i] = (batch_t){ d[i], 32 };
    t[8] = (batch_t){ NULL, 0 };
    for (unsigned r = 0; r < reps; r++)
      for (int op = 0; op < 6; op++) {
        uint64_t z = mix64(r * 6 + op);
        for (int i = 0; i < 8; i++) memcpy(d[i], &z, 8);
        memcpy(cw, &z, 8);
        work = 32;
        if (op < 2) { if (op) m_bs_key_set(cw, q); else m_key_set(cw, k); }
        else if (op < 4) m_crypt(op & 1, k, d[0], 32);
        else m_bs_crypt(op & 1, q, t, 32);
        if (r < 100) { if (nsteps > first[op]) first[op] = nsteps; }
        else if (nsteps > 4 * first[op] + 20000) fail("call %u of kind %d took %llu steps, the first 100 took at most %llu", r, op, (unsigned long long)nsteps, (unsigned long long)first[op]);
      }
    m_key_free(k); m_bs_key_free(q);
  }
  /* nor with the number of contexts alive, or allocated so far */
  for (int bs = 0; bs < 2; bs++)
    for (int live = 0; live < 2; live++) {
      unsigned n = arg_i("crowd", 40000);
      uint64_t f[5] = { 0 };
      if (!case_begin("%u %s contexts %s", n, bs ? "parallel" : "single-packet", live ? "alive at once" : "allocated and freed one after the other")) continue;
      void **c = calloc(n, sizeof *c);
      if (!c) { perror("calloc"); _exit(9); }
      al_pool_on();
      int fill = al_fill;
      al_fill = -1;
      work = 32;
#define UPTO(op) do { if (i < 100) { if (nsteps > f[op]) f[op] = nsteps; } \
  else if (nsteps > 4 * f[op] + 20000) fail("the %s took %llu steps with context %u, at most %llu with the first 100", (const char *[]){ "allocation", "key setup", "encryption", "decryption", "release" }[op], (unsigned long long)nsteps, i, (unsigned long long)f[op]); } while (0)
      for (unsigned i = 0; i < n; i++) {
        uint64_t z = mix64(i);
        c[i] = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
        UPTO(0);
        if (i < 100 || i % (bs ? 61 : 3) == 0) {
          memcpy(cw, &z, 8);
          if (bs) m_bs_key_set(cw, c[i]); else m_key_set(cw, c[i]);
          UPTO(1);
          for (int dir = 0; dir < 2; dir++) {
            t[0] = (batch_t){ d[0], 32 }; t[1] = (batch_t){ NULL, TERMLEN };
            if (bs) m_bs_crypt(dir, c[i], t, 32); else m_crypt(dir, c[i], d[0], 32);
            UPTO(2 + dir);
          }
        }
        if (!live) {
          if (bs) m_bs_key_free(c[i]); else m_key_free(c[i]);
          UPTO(4);
        }
      }
      if (live)
        for (unsigned s = 0; s < n; s++) {
          unsigned i = s < n / 3 ? n - 1 - s : s < n / 3 * 2 ? s - n / 3 : n / 3 + (s - n / 3 * 2);
          if (bs) m_bs_key_free(c[i]); else m_key_free(c[i]);
          if (nsteps > 4 * f[3] + 20000) fail("the release of context %u of %u took %llu steps", i, n, (unsigned long long)nsteps);
        }
      al_fill = fill;
      free(c);
      al_pool_off();
    }
  if (total == 0) fail("the build reports no steps");
  stat_add("basic_blocks", total);
  stat_add("max_steps_per_1000_bytes", worst);
  stat_add("max_stack", deepest);
  sample("no call took more than %llu steps per 1000 bytes nor %lu bytes of stack", (unsigned long long)worst, deepest);
}

/* ---- quiet ------------------------------------------------------------------- */
#if defined(__x86_64__) && !defined(MC_SAN)
#include <ucontext.h>
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
volatile char sud_sel;
/* the only code whose system calls are never trapped */
__asm__(".text\n.globl mc_sud_lo, mc_sud_hi, mc_syscall, mc_restorer\n.balign 64\nmc_sud_lo:\n"
        "mc_restorer:\n mov $15, %eax\n syscall\n"
        "mc_syscall:\n mov %rdi, %rax\n mov %rsi, %rdi\n mov %rdx, %rsi\n mov %rcx, %rdx\n mov %r8, %r10\n mov %r9, %r8\n mov 8(%rsp), %r9\n syscall\n ret\n"
        "nop\nnop\nmc_sud_hi:\n");
extern char mc_sud_lo[], mc_sud_hi[], mc_restorer[];
extern long mc_syscall(long nr, long a, long b, long c, long d, long e, long f);
struct ksa { void *h; unsigned long flags; void *restorer; uint64_t mask; };
static int hook(int sig, void *h)
{
  struct ksa k = { h, SA_SIGINFO | SA_RESTART | 0x04000000 /* SA_RESTORER */ | (sig == SIGSYS ? SA_NODEFER : 0), mc_restorer, 0 };
  return mc_syscall(SYS_rt_sigaction, sig, (long)&k, 0, 8, 0, 0);
}
static struct { int nr; long a[3]; char text[80]; } bad;
static uint64_t allowed;
static void on_sys(int sig, siginfo_t *si, void *u)
{
  ucontext_t *c = u;
  greg_t *g = c->uc_mcontext.gregs;
  int ok = 0;
  (void)sig;
  switch (si->si_syscall) {
  case SYS_mmap: ok = (int)g[REG_R8] == -1; break;
  case SYS_brk: case SYS_munmap: case SYS_mremap: case SYS_madvise: case SYS_mprotect: case SYS_futex: case SYS_sched_yield:
  case SYS_getrandom: case SYS_getpid: case SYS_gettid: case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time:
  case SYS_rt_sigprocmask: case SYS_membarrier: case SYS_getcpu: ok = 1;
  }
  if (ok) {
    allowed++;
    g[REG_RAX] = mc_syscall(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
    return;
  }
  if (!bad.nr) {
    bad.nr = si->si_syscall + 1;
    bad.a[0] = g[REG_RDI]; bad.a[1] = g[REG_RSI]; bad.a[2] = g[REG_RDX];
    if (si->si_syscall == SYS_write) {
      size_t n = bad.a[2] < 79 ? bad.a[2] : 79;
      memcpy(bad.text, (void *)bad.a[1], n);
      for (size_t i = 0; i < n; i++) if (bad.text[i] < 32) bad.text[i] = ' ';
    } else if (si->si_syscall == SYS_openat && bad.a[1]) {
      strncpy(bad.text, (char *)bad.a[1], 79);
    }
  }
  if (si->si_syscall == SYS_exit || si->si_syscall == SYS_exit_group) siglongjmp(lib_jb, SIGSYS);
  g[REG_RAX] = -ENOSYS;
}
/* functions left to be called later, at the end of the process or around fork */
static int left;
int __cxa_atexit(void (*f)(void *), void *a, void *d)
{
  static int (*real)(void (*)(void *), void *, void *);
  if (sud_sel) { left++; return 0; }
  if (!real) real = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_atexit");
  return real(f, a, d);
}
int __register_atfork(void (*a)(void), void (*b)(void), void (*c)(void), void *d)
{
  static int (*real)(void (*)(void), void (*)(void), void (*)(void), void *);
  if (sud_sel) { left++; return 0; }
  if (!real) real = (int (*)(void (*)(void), void (*)(void), void (*)(void), void *))dlsym(RTLD_NEXT, "__register_atfork");
  return real(a, b, c, d);
}
extern char **environ;
static int rand1;
static char loc0[64];
static uint64_t env0, calls;
static uint64_t env_hash(void)
{
  uint64_t h = (uintptr_t)environ;
  for (char **e = environ; e && *e; e++) {
    h = mix64(h ^ (uintptr_t)*e);
    for (const char *p = *e; *p; p++) h = (h ^ (unsigned char)*p) * 0x9e3779b97f4a7c15ull;
  }
  return h;
}
/* how the standard streams are buffered */
static long buffering(void)
{
  FILE *f[3] = { stdin, stdout, stderr };
  long h = 0;
  for (int i = 0; i < 3; i++) h = 1000003 * h + (f[i] ? (long)__fbufsize(f[i]) * 4 + !!__flbf(f[i]) * 2 + !!(f[i]->_flags & 2) : 0);
  return h;
}
static long buf0, rand2;
int mallopt(int a, int b)
{
  static int (*real)(int, int);
  if (sud_sel) { left |= 1 << 20; return 1; }
  if (!real) real = (int (*)(int, int))dlsym(RTLD_NEXT, "mallopt");
  return real(a, b);
}
static sigset_t mask0;
static void quiet_begin(void)
{
  fflush(report);
  bad.nr = 0; bad.text[0] = 0;
  srandom(1); srand48(1);
  buf0 = buffering();
  env0 = env_hash();
  sud_sel = 1;
}
static void quiet_end(int r)
{
  sigset_t m;
  if (!r) fflush(NULL);         /* output waiting in a buffer is output */
  sud_sel = 0;
  calls++;
  if (r == REFUSED) return;
  st_checked++;
  if (bad.nr) fail("the call made system call %d (%#lx, %#lx, %#lx) %s%s%s", bad.nr - 1, bad.a[0], bad.a[1], bad.a[2], bad.text[0] ? "\"" : "", bad.text, bad.text[0] ? "\"" : "");
  if (left >> 20) fail("the call changed the settings of the memory allocator");
  if (left) fail("the call registered a function to be called later, at exit or fork");
  if (random() != rand1) fail("the call used or reset the process' random number generator");
  if (lrand48() != rand2) fail("the call used or reset the process' lrand48 numbers");
  if (buffering() != buf0) fail("the call changed the buffering of a standard stream");
  if (env_hash() != env0) fail("the call changed the environment");
  if (strcmp(setlocale(LC_ALL, NULL), loc0)) fail("the call changed the locale to %s", setlocale(LC_ALL, NULL));
  pthread_sigmask(SIG_SETMASK, NULL, &m);
  if (memcmp(&m, &mask0, 8)) fail("the call changed the signal mask");
}
static void quiet(void)
{
  mc_env_answer = "1";         /* inside library calls every environment variable asked for is set */
  srandom(1); rand1 = random();
  srand48(1); rand2 = lrand48();
  snprintf(loc0, sizeof loc0, "%s", setlocale(LC_ALL, NULL));
  pthread_sigmask(SIG_SETMASK, NULL, &mask0);
  if (hook(SIGSYS, on_sys) || hook(SIGPROF, mc_on_prof) || hook(SIGALRM, mc_on_wall) ||
      prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, mc_sud_lo, mc_sud_hi - mc_sud_lo, &sud_sel)) {
    fprintf(stderr, "system calls cannot be trapped here\n");
    _exit(9);
  }
  /* the monitor sees what it has to see */
  quiet_begin();
  in_lib = 1; if (write(1, "x", 1) == 1) {} in_lib = 0;
  sud_sel = 0;
  if (bad.nr - 1 != SYS_write) { fprintf(stderr, "system calls are not trapped\n"); _exit(9); }
  mon_begin = quiet_begin; mon_end = quiet_end;
  workload(arg_i("big", 1 << 16));
  mon_begin = NULL; mon_end = NULL;
  stat_add("monitored_calls", calls);
  stat_add("allowed_system_calls", allowed);
  sample("%llu calls, %llu system calls of the memory allocator among them, no others", (unsigned long long)calls, (unsigned long long)allowed);
}
#else
volatile char sud_sel;
static void quiet(void) { stat_add("not_monitored", 1); }
#endif
const mode_t_ modes_bound[] = { { "steps", steps }, { "quiet", quiet }, { NULL, NULL } };
