/* C12: what surrounds a call without being an argument: floating-point modes, general
 * registers and flags, errno, environment variables, locale, clock, random numbers,
 * process and processor numbers, and the stack the call happens to run on. */
#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

const char *mc_env_answer;      /* what getenv answers inside library calls */
static int faking;
static unsigned long fake;      /* what clocks, process numbers and the like say */
#define REAL(ret, name, sig) static ret (*real)sig; if (!real) real = (ret (*)sig)dlsym(RTLD_NEXT, #name)
extern char **environ;
char *getenv(const char *name)
{
  size_t n = strlen(name);
  if (in_lib && mc_env_answer) return mc_env_answer[0] == 1 ? NULL : (char *)mc_env_answer;
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return NULL;
}
char *secure_getenv(const char *name) { return getenv(name); }
time_t time(time_t *t)
{
  REAL(time_t, time, (time_t *));
  if (in_lib && faking) { if (t) *t = fake; return fake; }
  return real(t);
}
clock_t clock(void) { REAL(clock_t, clock, (void)); return in_lib && faking ? (clock_t)fake : real(); }
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
  REAL(int, gettimeofday, (struct timeval *restrict, void *restrict));
  if (in_lib && faking) { tv->tv_sec = fake; tv->tv_usec = fake % 1000000; return 0; }
  return real(tv, tz);
}
int clock_gettime(clockid_t c, struct timespec *tp)
{
  REAL(int, clock_gettime, (clockid_t, struct timespec *));
  if (in_lib && faking) { tp->tv_sec = fake; tp->tv_nsec = fake % 1000000000; return 0; }
  return real(c, tp);
}
int rand(void) { REAL(int, rand, (void)); return in_lib && faking ? (int)(fake & RAND_MAX) : real(); }
long random(void) { REAL(long, random, (void)); return in_lib && faking ? (long)(fake & RAND_MAX) : real(); }
long lrand48(void) { REAL(long, lrand48, (void)); return in_lib && faking ? (long)(fake & RAND_MAX) : real(); }
pid_t getpid(void) { REAL(pid_t, getpid, (void)); return in_lib && faking ? (pid_t)(fake & 0x3fffff) : real(); }
pid_t gettid(void) { REAL(pid_t, gettid, (void)); return in_lib && faking ? (pid_t)(fake & 0x3fffff) : real(); }
int sched_getcpu(void) { REAL(int, sched_getcpu, (void)); return in_lib && faking ? (int)(fake & 1023) : real(); }
long sysconf(int n)
{
  REAL(long, sysconf, (int));
  if (in_lib && faking && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return (fake & 255) + 1;
  return real(n);
}

/* the surroundings in force for the next calls */
static struct { int fp, err, regs, loc; } amb;
static int nfp(void)
{
#if defined(__x86_64__)
  return 16;
#elif defined(__aarch64__)
  return 8;
#else
  return 4;
#endif
}
static const int rmode[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static void fp_set(int k)
{
  fesetround(rmode[k & 3]);
#if defined(__x86_64__)
  {
    uint32_t m; uint16_t c;
    __asm__ volatile("stmxcsr %0" : "=m"(m));
    __asm__ volatile("fnstcw %0" : "=m"(c));
    if (k & 4) m |= 0x8040; else m &= ~0x8040u;                 /* tiny values count as zero */
    c = (c & ~0x300) | (k & 8 ? 0 : 0x300);                     /* x87 precision */
    __asm__ volatile("ldmxcsr %0" : : "m"(m));
    __asm__ volatile("fldcw %0" : : "m"(c));
  }
#elif defined(__aarch64__)
  {
    uint64_t c;
    __asm__ volatile("mrs %0, fpcr" : "=r"(c));
    if (k & 4) c |= 1u << 24; else c &= ~(1ull << 24);
    __asm__ volatile("msr fpcr, %0" : : "r"(c));
  }
#endif
}
#if defined(__x86_64__)
/* all registers and flags that may hold anything at a call hold a chosen value */
extern uint64_t call_filled(void *fn, uint64_t a, uint64_t b, uint64_t c, uint64_t fill, uint64_t flags);
__asm__(".text\n.globl call_filled\n.type call_filled,@function\ncall_filled:\n"
  " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n"
  " mov %rdi,%r11\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
  " push %r9\n popfq\n"
  " mov %r8,%rax\n mov %r8,%rcx\n mov %r8,%rbx\n mov %r8,%rbp\n mov %r8,%r9\n mov %r8,%r10\n mov %r8,%r12\n mov %r8,%r13\n mov %r8,%r14\n mov %r8,%r15\n"
  " call *%r11\n"
  " lea 8(%rsp),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n cld\n ret\n.size call_filled,.-call_filled\n");
static const uint64_t rfill[] = { 0, ~0ull, 0xa5a5a5a5a5a5a5a5, 1, 0x8000000080000000 };
#define NREGS 10
static uint64_t call(void *fn, uint64_t a, uint64_t b, uint64_t c)
{
  return call_filled(fn, a, b, c, rfill[amb.regs % 5], amb.regs / 5 ? 0x8d5 | 0x202 : 0x202);
}
#else
#define NREGS 1
static uint64_t call(void *fn, uint64_t a, uint64_t b, uint64_t c) { return ((uint64_t (*)(uint64_t, uint64_t, uint64_t))fn)(a, b, c); }
#endif
static void amb_call(const char *what, void *fn, const void *a, const void *b, uint64_t c)
{
  int r;
  st_trans++; case_progress_tick++;
  r = LIBCALL_(fp_set(amb.fp); errno = amb.err; call(fn, (uintptr_t)a, (uintptr_t)b, c));
  fp_set(0);
  if (r) fail("%s %s", what, outcome_name(r));
}
static uint8_t buf[1024][184];
static batch_t arr[1025];
static skey *K;
static bkey *Q;
static const unsigned lens[] = { 0, 3, 8, 13, 16, 23, 64, 101, 176, 184 };
static void round_of_calls(unsigned salt)
{
  uint8_t cw[8], d[184];
  unsigned B = lib.bs_batch_size();
  for (unsigned g = 0; g < GK; g++) {
    geo_cw(g, cw);
    amb_call("dvbcsa_key_set", (void *)lib.key_set, cw, K, 0);
    amb_call("dvbcsa_bs_key_set", (void *)lib.bs_key_set, cw, Q, 0);
    for (int dir = 0; dir < 2; dir++) {
      for (unsigned i = 0; i < sizeof lens / sizeof *lens; i++) {
        unsigned l = lens[i], p = (i + salt) % GP;
        geo_payload(p, d, l);
        amb_call(dir == ENC ? "dvbcsa_encrypt" : "dvbcsa_decrypt", dir == ENC ? (void *)lib.encrypt : (void *)lib.decrypt, K, d, l);
        check_bytes(d, geo_expect(g, dir, p, l), l, "single-packet %s of %u bytes", dir == ENC ? "encrypt" : "decrypt", l);
      }
      for (unsigned ni = 0; ni < 3; ni++) {
        unsigned n = ni == 0 ? 1 : ni == 1 ? B : B / 2 + 1, M = ni == 2 ? 96 : 184;
        for (unsigned i = 0; i < n; i++) {
          unsigned l = ni == 0 ? 29 : (i * 29 + 3 + salt) % 185;
          geo_payload((i + salt) % GP, buf[i], l);
          arr[i] = (batch_t){ buf[i], l };
        }
        arr[n] = (batch_t){ NULL, 0 };
        amb_call(dir == ENC ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt", dir == ENC ? (void *)lib.bs_encrypt : (void *)lib.bs_decrypt, Q, arr, M);
        for (unsigned i = 0; i < n; i++) {
          unsigned e = arr[i].len < M ? arr[i].len : M;
          check_bytes(buf[i], geo_expect(g, dir, (i + salt) % GP, e), e, "parallel %s, packet %u of %u, %u bytes", dir == ENC ? "encrypt" : "decrypt", i, n, arr[i].len);
        }
      }
    }
  }
}
static void everything(const char *what, unsigned salt)
{
  if (!case_begin("%s", what)) return;
  K = m_key_alloc(); Q = m_bs_key_alloc();
  round_of_calls(salt);
  m_key_free(K); m_bs_key_free(Q);
  sample("all kinds of calls: %s", what);
}
/* on another stack: a thread's, placed by us; the thread runs one round */
static struct { const char *what; unsigned salt, off; } st;
static __attribute__((noinline)) void deeper(unsigned off)
{
  volatile char *a = __builtin_alloca(off + 16);
  a[0] = 1;
  everything(st.what, st.salt);
  __asm__ volatile("" : : "r"(a) : "memory");
}
static void *on_stack(void *x) { (void)x; deeper(st.off); return NULL; }
static void ambient(void)
{
  static const int errs[] = { 0, 1, ENOMEM, EAGAIN, EINVAL, -1 };
  static const char *answers[] = { "\1", "", "0", "1", "2", "yes", "-1", "debug" };
  static const char *locs[] = { "C", "C.UTF-8", "POSIX", "en_US.UTF-8" };
  static const unsigned long fakes[] = { 0, 1, 2, 3, 7, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 1000000007 };
  unsigned salt = 0, step = arg_i("step", 1);
  char what[160];
  for (int i = 0; i < nfp(); i += 1) { amb.fp = i; snprintf(what, sizeof what, "rounding mode %d%s%s", i & 3, i & 4 ? ", denormals flushed" : "", i & 8 ? ", x87 single precision" : ""); everything(what, salt++); }
  amb.fp = 0;
  for (int i = 0; i < NREGS; i++) { amb.regs = i; snprintf(what, sizeof what, "unused registers and flags: pattern %d", i); everything(what, salt++); }
  amb.regs = 0;
  for (unsigned i = 0; i < 6; i++) { amb.err = errs[i]; snprintf(what, sizeof what, "errno %d", errs[i]); everything(what, salt++); }
  amb.err = 0;
  for (unsigned i = 0; i < 8; i++) {
    mc_env_answer = answers[i];
    snprintf(what, sizeof what, "every environment variable %s%s", i ? "set to " : "unset", i ? answers[i] : ""); everything(what, salt++);
  }
  mc_env_answer = NULL;
  for (unsigned i = 0; i < 4; i++)
    if (setlocale(LC_ALL, locs[i])) { snprintf(what, sizeof what, "locale %s", locs[i]); everything(what, salt++); }
  setlocale(LC_ALL, "C");
  faking = 1;
  for (unsigned i = 0; i < 10; i++) { fake = fakes[i]; snprintf(what, sizeof what, "clocks, random numbers and process number say %lu", fake); everything(what, salt++); }
  faking = 0;
  st.what = what;
  for (unsigned off = 0; off < 8192; off += 16 * step * (off < 1024 ? 1 : 7)) {
    snprintf(what, sizeof what, "stack pointer %u bytes lower", off);
    st.salt = salt++;
    deeper(off);
  }
#if defined(__x86_64__) && !defined(MC_SAN)
  {
    static const uintptr_t at[] = { 0x10000000, 0x7fe00000, 0x80000000, 0xffe00000, 0x100000000, 0x1fff00000, 0x555500000000, 0x7ff000000000 };
    enum { SZ = 1 << 22 };
    for (unsigned i = 0; i < 8; i++)
      for (unsigned off = 0; off < 64; off += 16) {
        pthread_attr_t a;
        pthread_t t;
        unsigned char *m = mmap((void *)at[i], SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (m == MAP_FAILED) continue;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, m, SZ);
        snprintf(what, sizeof what, "called by a thread with its stack at %p, %u bytes lower", (void *)m, off);
        st.salt = salt++; st.off = off;
        if (pthread_create(&t, &a, on_stack, NULL)) { munmap(m, SZ); continue; }
        pthread_join(t, NULL);
        munmap(m, SZ);
      }
  }
#endif
}
const mode_t_ modes_ambient[] = { { "ambient", ambient }, { NULL, NULL } };
