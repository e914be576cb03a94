/* Calls that are never finished: abandoned where they stand (their thread is
 * cancelled, a signal handler jumps out of them, or the process forks meanwhile and
 * the child goes on), once or many times over.  Whatever is done afterwards, by the
 * same thread or another, has its normal result.
 *  what=step   (x86) abandoned at an instruction: at all of them, at some distance, the
 *              process is doubled, the copy leaves the call and goes on; and at some of
 *              them the call is left again and again
 *  what=touch  abandoned at the first read or write of one of the objects given to the
 *              call, a page at a time, again and again */
#include "mc.h"
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#if defined(__x86_64__) && !defined(MC_SAN)
#define STEPS 1
#include <link.h>
#include <dlfcn.h>
#include <ucontext.h>
#endif

enum { KEYSET, BSKEYSET, SENC, SDEC, BENC, BDEC, NOPS };
static const char *const opname[NOPS] = { "dvbcsa_key_set", "dvbcsa_bs_key_set", "dvbcsa_encrypt", "dvbcsa_decrypt", "dvbcsa_bs_encrypt", "dvbcsa_bs_decrypt" };
#define NMAX 512
#define LONG 12289              /* the single packet of what=touch: four pages */
typedef struct {
  uint8_t *cw, cw0[8];
  skey *k; bkey *bk;
  uint8_t *one;                 /* single packet */
  unsigned onelen;
  uint8_t *data[NMAX];          /* parallel packets */
  unsigned len[NMAX], maxlen, n;
  batch_t *b, *b0;
  uint8_t plain1[LONG], want1[2][LONG];
  uint8_t plain[NMAX][MAXLEN], want[2][NMAX][MAXLEN];
} side;
static side outer, inner;
static uint8_t guard_cw[8] = { 3, 1, 4, 1, 5, 9, 2, 6 };
/* every case is run in a process of its own, so that it can be repeated alone */
static struct { uint64_t abandoned, probes, states, trans, checked; } *sum;
static int copied;
static void done_copy(void)
{
  sum->states += st_states; sum->trans += st_trans; sum->checked += st_checked;
  _exit(0);
}
static int copy(void)
{
  int st;
  pid_t pid;
  if (copied) return 1;
  fflush(NULL);
  pid = _Fork();
  if (pid < 0) { perror("fork"); _exit(9); }
  if (!pid) {
    /* the watch over calls that never return is kept by the copy itself */
    struct itimerval it = { { 1, 0 }, { 1, 0 } }, wt = { { 2, 0 }, { 2, 0 } };
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setitimer(ITIMER_PROF, &it, NULL); setitimer(ITIMER_REAL, &wt, NULL);
    copied = 1; st_states = st_trans = st_checked = 0;
    return 1;
  }
  mc_wall_off = 1;
  while (waitpid(pid, &st, 0) < 0) ;
  mc_wall_off = 0;
  if (st) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 9);
  case_progress_tick++;
  return 0;
}

static void setup(side *s, unsigned salt, unsigned n, unsigned maxlen, unsigned onelen)
{
  ref_key rk;
  for (int i = 0; i < 8; i++) s->cw0[i] = mix64(salt * 977 + mc_seed) >> 8 * i;
  s->cw = guard_end(8);
  memcpy(s->cw, s->cw0, 8);
  s->k = m_key_alloc(); s->bk = m_bs_key_alloc();
  m_key_set(s->cw, s->k); m_bs_key_set(s->cw, s->bk);
  ref_set(&rk, s->cw0);
  s->onelen = onelen;
  s->one = guard_end(onelen);
  for (unsigned j = 0; j < onelen; j++) s->plain1[j] = mix64(salt * 31 + 7 + j / 8) >> 8 * (j & 7);
  for (int d = 0; d < 2; d++) {
    memcpy(s->want1[d], s->plain1, onelen);
    (d == ENC ? ref_encrypt : ref_decrypt)(&rk, s->want1[d], onelen);
  }
  s->n = n; s->maxlen = maxlen;
  s->b = (batch_t *)guard_end((n + 1) * sizeof *s->b);
  s->b0 = calloc(n + 1, sizeof *s->b0);
  for (unsigned i = 0; i < n; i++) {
    s->len[i] = i % 3 == 2 ? maxlen - i % maxlen : maxlen;
    s->data[i] = guard_end(s->len[i]);
    s->b0[i].data = s->data[i]; s->b0[i].len = s->len[i];
    for (unsigned j = 0; j < s->len[i]; j++) s->plain[i][j] = mix64(salt * 131 + i * 17 + 5) >> 8 * (j & 7) ^ j;
    for (int d = 0; d < 2; d++) {
      memcpy(s->want[d][i], s->plain[i], s->len[i]);
      (d == ENC ? ref_encrypt : ref_decrypt)(&rk, s->want[d][i], s->len[i]);
    }
  }
  s->b0[n].len = TERMLEN;
  memcpy(s->b, s->b0, (n + 1) * sizeof *s->b);
}
static void refill(side *s)
{
  memcpy(s->one, s->plain1, s->onelen);
  for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
}
static void put(side *s, int op)
{
  if (op == SENC || op == SDEC) memcpy(s->one, s->plain1, s->onelen);
  else for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
}
/* normal calls, everything about them checked */
static void probe(side *s, int op, const char *who, const char *what)
{
  sum->probes++; st_states++;
  switch (op) {
  case KEYSET: m_key_set(s->cw, s->k); break;
  case BSKEYSET: m_bs_key_set(s->cw, s->bk); break;
  case SENC: case SDEC:
    put(s, op);
    m_crypt(op - SENC, s->k, s->one, s->onelen);
    check_bytes(s->one, s->want1[op - SENC], s->onelen, "%s; afterwards %s %s", what, opname[op], who);
    break;
  default:
    put(s, op);
    m_bs_crypt(op - BENC, s->bk, s->b, s->maxlen);
    for (unsigned i = 0; i < s->n; i++)
      check_bytes(s->data[i], s->want[op - BENC][i], s->len[i], "%s; afterwards %s %s, packet %u", what, opname[op], who, i);
  }
}
/* what a context holds when its setting is begun: nothing, or another word */
static void unset(side *s, int op, int fresh)
{
  uint8_t *cw = guard_cw;
  if (op == KEYSET) {
    if (fresh) { m_key_free(s->k); s->k = m_key_alloc(); } else m_key_set(cw, s->k);
  } else if (op == BSKEYSET) {
    if (fresh) { m_bs_key_free(s->bk); s->bk = m_bs_key_alloc(); } else m_bs_key_set(cw, s->bk);
  }
}
static void untouched(side *s, const char *what)
{
  check_bytes(s->cw, s->cw0, 8, "%s: a control word", what);
  check_bytes((uint8_t *)s->b, (uint8_t *)s->b0, (s->n + 1) * sizeof *s->b, "%s: a batch array", what);
}
static struct { int op; const char *what; } now;
static void probe_all(void)
{
  /* first what nobody touched, in all orders of first call over the cases */
  for (int i = 0; i < NOPS; i++) probe(&inner, (i + case_idx) % NOPS, "with other objects", now.what);
  /* the same objects: a context being set has to be set again, others go on being used */
  if (now.op == KEYSET || now.op == BSKEYSET) probe(&outer, now.op, "", now.what);
  for (int op = SENC; op < NOPS; op++) probe(&outer, op, "with the same objects", now.what);
  probe(&outer, KEYSET, "", now.what); probe(&outer, BSKEYSET, "", now.what);
  for (int op = SENC; op < NOPS; op++) probe(&outer, op, "with the same objects, set once more", now.what);
}
static void *on_thread(void *v) { (void)v; probe_all(); return NULL; }
static void afterwards(int op, const char *what, int other)
{
  now.op = op; now.what = what;
  untouched(&outer, what); untouched(&inner, what);
  check_bytes(inner.one, inner.plain1, inner.onelen, "%s: a packet of nobody", what);
  for (unsigned i = 0; i < inner.n; i++) check_bytes(inner.data[i], inner.plain[i], inner.len[i], "%s: a packet of nobody", what);
  if (!other) probe_all();
  else {
    pthread_t t;
    if (pthread_create(&t, NULL, on_thread, NULL)) { perror("pthread_create"); _exit(9); }
    pthread_join(t, NULL);
  }
  refill(&inner);
}
static int call(side *s, int op)
{
  switch (op) {
  case KEYSET: return l_key_set(s->cw, s->k);
  case BSKEYSET: return l_bs_key_set(s->cw, s->bk);
  case SENC: case SDEC: return l_crypt(op - SENC, s->k, s->one, s->onelen);
  default: return l_bs_crypt(op - BENC, s->bk, s->b, s->maxlen);
  }
}
static void clean_cpu(void)
{
#if defined(__i386__) || defined(__x86_64__)
  __asm__ volatile("emms; cld" ::: "memory");
#endif
}

#ifdef STEPS
static uintptr_t text_lo, text_hi;
static volatile int arm;
static unsigned long seen, target, every, phase;
static int fork_op;
static void afterwards(int op, const char *what, int other);
static int find_text(struct dl_phdr_info *i, size_t sz, void *v)
{
  (void)sz;
  if (i->dlpi_addr != *(uintptr_t *)v) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      text_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      text_hi = text_lo + i->dlpi_phdr[k].p_memsz;
    }
  return 1;
}
#define LEFT 1077
static void on_trap(int sig, siginfo_t *si, void *ucv)
{
  ucontext_t *uc = ucv;
  uintptr_t ip = uc->uc_mcontext.gregs[REG_RIP];
  (void)sig; (void)si;
  if (arm) {
    if (arm == 1) uc->uc_mcontext.gregs[REG_EFL] |= 0x100; else uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    arm = 0;
    return;
  }
  if (ip < text_lo || ip >= text_hi || !in_lib) return;
  if (!every) { if (seen++ == target) siglongjmp(lib_jb, LEFT); return; }
  if (seen++ % every == phase) {
    if (copy()) { every = 0; target = seen - 1; siglongjmp(lib_jb, LEFT); }
    sum->abandoned++;
  }
}
static void stepping(int on) { arm = on ? 1 : 2; raise(SIGTRAP); }
/* 1: abandoned, 0: it came to its end before */
static int leave(int op, unsigned long k)
{
  int r;
  unset(&outer, op, k & 1);
  seen = 0; target = k;
  refill(&outer);
  stepping(1);
  r = call(&outer, op);
  if (r == LEFT) { arm = 0; clean_cpu(); sum->abandoned++; return 1; }
  if (r) { arm = 0; fail("%s %s", opname[op], outcome_name(r)); }
  stepping(0);
  return 0;
}
static void by_step(void)
{
  static const unsigned long ks[] = { 2, 7, 19, 45, 90, 180, 360, 900, 2500, 7000, 20000, 60000 };
  unsigned dist = arg_i("dist", 17), bdist = arg_i("bdist", 4001), parts = arg_i("parts", 4), reps = arg_i("reps", 300);
  unsigned long steps = arg_i("steps", 200000);
  struct link_map *lm;
  struct sigaction sa;
  uintptr_t base;
  if (!lib.handle || dlinfo(lib.handle, RTLD_DI_LINKMAP, &lm)) fail("no link map");
  base = lm->l_addr;
  dl_iterate_phdr(find_text, &base);
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
  setup(&outer, 11, B < 4 ? B : 4, 16, 29);
  setup(&inner, 23, B < 4 ? B : 4, 16, 21);
  refill(&inner);
  for (int op = 0; op < NOPS; op++) {
    /* the process doubled at every d-th instruction, in ph of the d phases */
    unsigned d = op == BENC || op == BDEC ? bdist : dist;
    unsigned long tot;
    for (unsigned ph = 0; ph < parts; ph++) {
      char what[160];
      int r;
      if (!case_begin("%s abandoned at instructions %u+%uk", opname[op], d * ph / parts, d)) continue;
      unset(&outer, op, ph & 1);
      refill(&outer);
      seen = 0; every = d; phase = d * ph / parts;
      stepping(1);
      r = call(&outer, op);
      if (r == LEFT) {          /* in the copy */
        arm = 0; clean_cpu();
        snprintf(what, sizeof what, "%s abandoned at instruction %lu", opname[op], target);
        afterwards(op, what, target / d % 3 == 2);
        done_copy();
      }
      if (r) { arm = 0; fail("%s %s", opname[op], outcome_name(r)); }
      stepping(0);
      every = 0;
      if (!ph) sample("%s abandoned at %lu instructions: everything works, also in other threads", opname[op], seen / d);
    }
    every = 0; seen = 0; target = ~0ul;
    refill(&outer); stepping(1);
    if (call(&outer, op)) fail("%s failed", opname[op]);
    stepping(0);
    tot = seen;
    /* many times over */
    for (unsigned i = 0; i < sizeof ks / sizeof *ks; i++) {
      unsigned m = 0, r = reps;
      char what[160];
      if (ks[i] >= tot) break;
      while (r > 5 && r * ks[i] > steps) r /= 2;
      if (!case_begin("%s abandoned %u times at instruction %lu of %lu", opname[op], r, ks[i], tot) || !copy()) continue;
      for (int left = 1; m < r && left; m++) {
        left = leave(op, ks[i]);        /* it may have become shorter */
        if (m & (m - 1) && m + 1 != r && left) continue;
        snprintf(what, sizeof what, "%s abandoned %u times at instruction %lu", opname[op], m + 1, ks[i]);
        afterwards(op, what, m & 1);
      }
      done_copy();
    }
  }
}
#else
static void by_step(void) { stat_add("not_stepped", 1); }
#endif

static void *page_of(const void *p, size_t pg) { return (void *)((uintptr_t)p & ~(pg - 1)); }
static void by_touch(void)
{
  unsigned reps = arg_i("reps", 2000), np = sysconf(_SC_PAGESIZE);
  setup(&outer, 37, B > NMAX ? NMAX : B, 24, LONG);
  setup(&inner, 41, B > NMAX ? NMAX : B, 16, 45);
  refill(&inner);
  for (int op = 0; op < NOPS; op++)
    for (int obj = 0; obj < 3 + 8; obj++)
      for (int wr = 0; wr < 2; wr++) {
        /* obj: the control word, the batch array, pages of the context, packets */
        uint8_t *p = NULL;
        const char *name = "the payload";
        unsigned page = 0, done = 0;
        char what[200];
        int bs = op == BSKEYSET || op >= BENC, set = op < SENC;
        if (obj == 0) { p = set ? outer.cw : bs ? (uint8_t *)outer.b : NULL; name = set ? "the control word" : "the batch array"; if (wr) continue; }
        else if (obj < 3) {
          void *c = bs ? (void *)outer.bk : (void *)outer.k;
          alloc_rec *a = NULL;
          for (int i = al_n - 1; i >= 0; i--)
            if (al_rec[i].live && (uint8_t *)c >= al_rec[i].p && (uint8_t *)c < al_rec[i].p + al_rec[i].size) a = &al_rec[i];
          if (!a || (wr && !set)) continue;
          name = obj == 1 ? "the first page of the context" : "the last page of the context";
          p = obj == 1 ? a->p : a->p + a->size - 1;
          if (obj == 2 && page_of(a->p, np) == page_of(p, np)) continue;
        } else if (set) continue;
        else if (!bs) {
          page = obj - 3;
          if (page * np >= outer.onelen) continue;
          p = outer.one + page * np;
          if (p > outer.one + outer.onelen - 1) p = outer.one + outer.onelen - 1;
        } else {
          static const unsigned at[8] = { 0, 1, 2, 7, 30, 31, 32, 33 };
          page = obj - 3 < 3 ? obj - 3 : obj == 6 ? outer.n / 2 : obj == 7 ? outer.n - 1 : at[obj - 3];
          if (page >= outer.n) continue;
          p = outer.data[page];
          name = "a packet";
        }
        if (!p) continue;
        if (!case_begin("%s abandoned %u times at the first %s %s (%u)", opname[op], reps, wr ? "write to" : "access to", name, page) || !copy()) continue;
        for (unsigned m = 0; m < reps; m++) {
          int r;
          if (!m || !(m & (m - 1))) { refill(&outer); unset(&outer, op, 0); }
          if (mprotect(page_of(p, np), np, wr ? PROT_READ : PROT_NONE)) { perror("mprotect"); _exit(9); }
          r = call(&outer, op);
          if (mprotect(page_of(p, np), np, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(9); }
          clean_cpu();
          if (!r && !done) break;        /* it had no need of it */
          if (r && r != SIGSEGV && r != SIGBUS) fail("%s %s", opname[op], outcome_name(r));
          done++; sum->abandoned++;
          if (m & (m - 1) && m + 1 != reps && r) continue;
          snprintf(what, sizeof what, "%s abandoned %u times at the first %s %s (%u)", opname[op], m + 1, wr ? "write to" : "access to", name, page);
          afterwards(op, what, (m ^ (m >> 1)) & 1);
          if (!r) break;
        }
        if (done) { sample("%s abandoned %u times at %s: everything works", opname[op], done, name); fflush(NULL); }
        done_copy();
      }
}

static void abandon(void)
{
  sum = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!strcmp(arg_s("what", "touch"), "step")) by_step(); else by_touch();
  st_states += sum->states; st_trans += sum->trans; st_checked += sum->checked;
  stat_add("abandoned_calls", sum->abandoned);
  stat_add("calls_afterwards", sum->probes);
}
const mode_t_ modes_abandon[] = { { "abandon", abandon }, { NULL, NULL } };
