/* Calls interrupted by other calls: while an outer call runs, the processor
 * traps after every instruction, and at every instruction of the library that
 * is reached (or at every k-th, for several k and phases) a complete nested
 * call is made from the trap handler, as a signal handler would. */
#include "mc.h"
#include <link.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>

#if defined(__x86_64__) && !defined(MC_SAN)
#include <ucontext.h>

enum { KEYSET, BSKEYSET, SENC, SDEC, BENC, BDEC, NOPS };
static const char *const opname[NOPS] = { "dvbcsa_key_set", "dvbcsa_bs_key_set", "dvbcsa_encrypt", "dvbcsa_decrypt", "dvbcsa_bs_encrypt", "dvbcsa_bs_decrypt" };
#define RP 4                    /* packets in the small batches */
#define RMAX 512
typedef struct {
  uint8_t *cw;
  skey *k; bkey *bk;
  uint8_t *data[RMAX];
  unsigned len[RMAX], maxlen, n;
  batch_t *b;
  uint8_t plain[RMAX][MAXLEN], want[NOPS][RMAX][MAXLEN];
  uint8_t *img, *bimg;          /* key contexts after setup */
  size_t ksz, bksz;
} side;
static side outer, inner;
static uintptr_t text_lo, text_hi;
static struct { int op, shared, once; unsigned stride, phase; uint64_t seen, made; uintptr_t bad_ip; char why[160]; } tr;
static region_t reg[16];
static uint8_t *regimg[16];
static int nreg;

static int find_text(struct dl_phdr_info *i, size_t sz, void *v)
{
  (void)sz;
  if (i->dlpi_addr != *(uintptr_t *)v) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      text_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      text_hi = text_lo + i->dlpi_phdr[k].p_memsz;
    }
  return 1;
}

static int key_ok(int bs)
{
  /* usual case: byte for byte the context a straight call makes */
  if (bs ? !memcmp(inner.bk, inner.bimg, inner.bksz) : !memcmp(inner.k, inner.img, inner.ksz)) return 1;
  for (int d = 0; d < 2; d++) {
    if (bs) {
      for (unsigned i = 0; i < inner.n; i++) memcpy(inner.data[i], inner.plain[i], inner.len[i]);
      (d == ENC ? lib.bs_encrypt : lib.bs_decrypt)(inner.bk, inner.b, inner.maxlen);
      for (unsigned i = 0; i < inner.n; i++)
        if (memcmp(inner.data[i], inner.want[d == ENC ? BENC : BDEC][i], inner.len[i])) return 0;
    } else {
      memcpy(inner.data[0], inner.plain[0], inner.len[0]);
      (d == ENC ? lib.encrypt : lib.decrypt)(inner.k, inner.data[0], inner.len[0]);
      if (memcmp(inner.data[0], inner.want[d == ENC ? SENC : SDEC][0], inner.len[0])) return 0;
    }
  }
  return 1;
}

/* one complete call with the inner arguments (processing: optionally with the
 * outer call's own key context) */
static void nested(void)
{
  side *s = &inner;
  const uint8_t (*want)[MAXLEN] = (const uint8_t (*)[MAXLEN])s->want[tr.op];
  const char *why = NULL;
  switch (tr.op) {
  case KEYSET:
    memset(s->k, 0x5c, s->ksz);
    lib.key_set(s->cw, s->k);
    if (!key_ok(0)) why = "left a context that does not work";
    break;
  case BSKEYSET:
    memset(s->bk, 0x5c, s->bksz);
    lib.bs_key_set(s->cw, s->bk);
    if (!key_ok(1)) why = "left a context that does not work";
    break;
  case SENC: case SDEC:
    memcpy(s->data[0], s->plain[0], s->len[0]);
    (tr.op == SENC ? lib.encrypt : lib.decrypt)(tr.shared ? outer.k : s->k, s->data[0], s->len[0]);
    if (memcmp(s->data[0], want[0], s->len[0])) why = "gave a wrong result";
    break;
  case BENC: case BDEC:
    for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
    (tr.op == BENC ? lib.bs_encrypt : lib.bs_decrypt)(tr.shared ? outer.bk : s->bk, s->b, s->maxlen);
    for (unsigned i = 0; i < s->n; i++)
      if (memcmp(s->data[i], want[i], s->len[i])) why = "gave a wrong result";
    break;
  }
  if (why && !tr.why[0]) snprintf(tr.why, sizeof tr.why, "the nested %s %s", opname[tr.op], why);
}

/* towers: each call is interrupted once, at its k-th instruction, by the next, until
 * so many are under way; then they go on, the last first */
#define TMAX 72
static side *lv[TMAX];
static struct { int on, op[2], shared, depth, level, top; unsigned long k, seen; } tw;
static volatile int arm;
static void stepping(int on);
static void tower_call(int level)
{
  side *s = lv[level], *o = tw.shared ? lv[0] : s;
  int op = tw.op[level & 1];
  switch (op) {
  case KEYSET: lib.key_set(s->cw, s->k); break;
  case BSKEYSET: lib.bs_key_set(s->cw, s->bk); break;
  case SENC: lib.encrypt(o->k, s->data[0], s->len[0]); break;
  case SDEC: lib.decrypt(o->k, s->data[0], s->len[0]); break;
  case BENC: lib.bs_encrypt(o->bk, s->b, s->maxlen); break;
  case BDEC: lib.bs_decrypt(o->bk, s->b, s->maxlen); break;
  }
}
static void on_trap(int sig, siginfo_t *si, void *ucv)
{
  ucontext_t *uc = ucv;
  uintptr_t ip = uc->uc_mcontext.gregs[REG_RIP];
  (void)sig; (void)si;
  if (arm) {
    if (arm == 1) uc->uc_mcontext.gregs[REG_EFL] |= 0x100; else uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    arm = 0;
    return;
  }
  if (ip < text_lo || ip >= text_hi || !in_lib) return;
  if (tw.on) {
    if (tw.seen++ != tw.k) return;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    case_progress_tick++;
    if (tw.level + 1 >= tw.depth) return;
    tw.level++; tw.top = tw.level; tw.seen = 0;
    stepping(1);
    tower_call(tw.level);
    stepping(0);
    tw.level--;
    return;
  }
  if (tr.once) {
    if (tr.seen++ != tr.phase) return;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;         /* the rest runs freely */
  } else if (tr.seen++ % tr.stride != tr.phase) return;
  tr.made++;
  case_progress_tick++;
  nested();
  if (tr.why[0] && !tr.bad_ip) { tr.bad_ip = ip; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; }
}
static void stepping(int on) { arm = on ? 1 : 2; raise(SIGTRAP); }

static void teardown(side *s)
{
  m_key_free(s->k); m_bs_key_free(s->bk);
  free(s->img); free(s->bimg);
}
static void setup(side *s, unsigned salt, const unsigned *lens, unsigned n, unsigned maxlen)
{
  ref_key rk;
  uint8_t cw[8];
  for (int i = 0; i < 8; i++) cw[i] = mix64(salt * 977 + mc_seed) >> 8 * i;
  s->cw = guard_end(8);
  memcpy(s->cw, cw, 8);
  s->k = m_key_alloc(); s->bk = m_bs_key_alloc();
  m_key_set(s->cw, s->k); m_bs_key_set(s->cw, s->bk);
  s->ksz = al_find(s->k)->size; s->bksz = al_find(s->bk)->size;
  s->bksz -= (uintptr_t)s->bk - (uintptr_t)al_find(s->bk)->p;
  s->img = malloc(s->ksz); s->bimg = malloc(s->bksz);
  memcpy(s->img, s->k, s->ksz); memcpy(s->bimg, s->bk, s->bksz);
  s->n = n; s->maxlen = maxlen;
  s->b = (batch_t *)guard_end((n + 1) * sizeof *s->b);
  memset(s->b, 0, (n + 1) * sizeof *s->b);
  for (unsigned i = 0; i < n; i++) {
    s->len[i] = lens[i];
    s->data[i] = guard_end(lens[i]);
    s->b[i].data = s->data[i]; s->b[i].len = lens[i];
    for (unsigned j = 0; j < lens[i]; j++) s->plain[i][j] = mix64(salt * 131 + i * 17 + 5) >> 8 * (j & 7) ^ j;
  }
  s->b[n].len = 0xdeadbeef;
  (void)rk;
}
/* expected results of every operation on side s under control word cw */
static void expect(side *s, const uint8_t *cw)
{
  ref_key rk;
  ref_set(&rk, cw);
  for (int op = SENC; op < NOPS; op++)
    for (unsigned i = 0; i < s->n; i++) {
      unsigned l = s->len[i];
      memcpy(s->want[op][i], s->plain[i], l);
      if (op >= BENC && l > s->maxlen) l = s->maxlen;
      (op == SENC || op == BENC ? ref_encrypt : ref_decrypt)(&rk, s->want[op][i], l);
    }
}
static void outer_reset(int op)
{
  side *s = &outer;
  for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
  if (op == KEYSET) memset(s->k, 0xa7, s->ksz); else memcpy(s->k, s->img, s->ksz);
  if (op == BSKEYSET) memset(s->bk, 0xa7, s->bksz); else memcpy(s->bk, s->bimg, s->bksz);
}
static int run_outer(int op)
{
  side *s = &outer;
  int r;
  stepping(1);
  switch (op) {
  case KEYSET: r = l_key_set(s->cw, s->k); break;
  case BSKEYSET: r = l_bs_key_set(s->cw, s->bk); break;
  case SENC: case SDEC: r = l_crypt(op == SENC ? ENC : DEC, s->k, s->data[0], s->len[0]); break;
  default: r = l_bs_crypt(op == BENC ? ENC : DEC, s->bk, s->b, s->maxlen);
  }
  if (r) { arm = 0; __asm__ volatile("" ::: "memory"); return r; }
  stepping(0);
  return 0;
}
static void check_outer(int op)
{
  side *s = &outer;
  char what[200];
  if (tr.once) snprintf(what, sizeof what, "%s interrupted once, at instruction %u, by %s%s", opname[op], tr.phase, opname[tr.op], tr.shared ? " with the same key context" : "");
  else snprintf(what, sizeof what, "%s interrupted at %s%u instruction%s by %s%s", opname[op], tr.stride == 1 ? "every " : "each ", tr.stride,
           tr.stride == 1 ? "" : "th", opname[tr.op], tr.shared ? " with the same key context" : "");
  if (op == KEYSET || op == BSKEYSET) {
    for (int d = 0; d < 2; d++) {
      for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
      if (op == KEYSET) {
        m_crypt(d, s->k, s->data[0], s->len[0]);
        check_bytes(s->data[0], s->want[d == ENC ? SENC : SDEC][0], s->len[0], "%s: later dvbcsa_%s", what, dirname_(d));
      } else {
        m_bs_crypt(d, s->bk, s->b, s->maxlen);
        for (unsigned i = 0; i < s->n; i++)
          check_bytes(s->data[i], s->want[d == ENC ? BENC : BDEC][i], s->len[i], "%s: later dvbcsa_bs_%s, packet %u", what, dirname_(d), i);
      }
    }
    return;
  }
  for (unsigned i = 0; i < (op < BENC ? 1 : s->n); i++)
    check_bytes(s->data[i], s->want[op][i], s->len[i], "%s, packet %u", what, i);
  if (memcmp(s->k, s->img, s->ksz) || memcmp(s->bk, s->bimg, s->bksz)) {
    /* a context may legitimately hold caches: it has to work, that is all */
    for (int o = SENC; o < NOPS; o++) {
      for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
      if (o < BENC) m_crypt(o == SENC ? ENC : DEC, s->k, s->data[0], s->len[0]);
      else m_bs_crypt(o == BENC ? ENC : DEC, s->bk, s->b, s->maxlen);
      for (unsigned i = 0; i < (o < BENC ? 1 : s->n); i++)
        check_bytes(s->data[i], s->want[o][i], s->len[i], "%s: %s with the same context afterwards, packet %u", what, opname[o], i);
    }
  }
}

static uintptr_t base;
static uint64_t points;
/* one execution; returns the number of interruptions made */
static uint64_t interrupted(int op, int in, int sh, int once, unsigned stride, unsigned phase, int cold)
{
  int r;
  memset(&tr, 0, sizeof tr);
  tr.op = in; tr.shared = sh; tr.once = once; tr.stride = stride; tr.phase = phase;
  outer_reset(op);
  memcpy(inner.k, inner.img, inner.ksz);
  memcpy(inner.bk, inner.bimg, inner.bksz);
  if (cold) for (int i = 0; i < nreg; i++)
    if (memcmp(reg[i].p, regimg[i], reg[i].n)) memcpy(reg[i].p, regimg[i], reg[i].n);
  r = run_outer(op);
  if (tr.why[0]) fail("%s, interrupting at library offset %#lx (interruption %llu, instruction %llu)", tr.why, (long)(tr.bad_ip - base),
                      (unsigned long long)tr.made, (unsigned long long)tr.seen);
  if (r) fail("%s %s", opname[op], outcome_name(r));
  points += tr.made;
  st_states += tr.made;
  st_trans += tr.made;
  st_checked += tr.made;
  if (tr.made) check_outer(op);
  return tr.made;
}

static void tower(int a, int b, int sh, int depth, unsigned long k)
{
  int r;
  memset(&tw, 0, sizeof tw);
  tw.op[0] = a; tw.op[1] = b; tw.shared = sh; tw.depth = depth; tw.k = k;
  for (int l = 0; l < depth; l++) {
    side *s = lv[l];
    int op = tw.op[l & 1];
    for (unsigned i = 0; i < s->n; i++) memcpy(s->data[i], s->plain[i], s->len[i]);
    if (op == KEYSET) memset(s->k, 0xa7, s->ksz); else memcpy(s->k, s->img, s->ksz);
    if (op == BSKEYSET) memset(s->bk, 0xa7, s->bksz); else memcpy(s->bk, s->bimg, s->bksz);
  }
  tw.on = 1;
  stepping(1);
  r = LIBCALL_(tower_call(0));
  if (r) arm = 0; else stepping(0);
  tw.on = 0;
  if (r) fail("%s and %s, %d calls one inside the other, each interrupted at instruction %lu: a call %s", opname[a], opname[b], tw.top + 1, k, outcome_name(r));
  st_states += tw.top; st_trans += tw.top + 1; points += tw.top;
  for (int l = 0; l <= tw.top; l++) {
    side *s = lv[l], *o = sh ? lv[0] : s;
    int op = tw.op[l & 1];
    char what[160];
    snprintf(what, sizeof what, "%d calls one inside the other, each interrupted at instruction %lu: call %d, %s", tw.top + 1, k, l, opname[op]);
    if (op >= SENC) {
      for (unsigned i = 0; i < (op < BENC ? 1 : s->n); i++) check_bytes(s->data[i], s->want[op][i], s->len[i], "%s, packet %u", what, i);
    } else if (op == KEYSET) {
      m_crypt(DEC, o->k, s->data[0], s->len[0]);
      check_bytes(s->data[0], s->want[SDEC][0], s->len[0], "%s: later dvbcsa_decrypt", what);
    } else {
      m_bs_crypt(DEC, o->bk, s->b, s->maxlen);
      for (unsigned i = 0; i < s->n; i++) check_bytes(s->data[i], s->want[BDEC][i], s->len[i], "%s: later dvbcsa_bs_decrypt, packet %u", what, i);
    }
  }
}
static void towers(int maxdepth, unsigned long steps)
{
  static const unsigned olen[4] = { 21, 16, 7, 24 }, ilen[4] = { 13, 24, 16, 5 };
  static const unsigned long ks[] = { 3, 12, 40, 90, 170, 400, 900, 2000, 4100, 9000, 20000, 60000, 150000 };
  for (int l = 0; l < maxdepth; l++) {
    lv[l] = calloc(1, sizeof *lv[l]);
    setup(lv[l], 100 + 7 * l, l & 1 ? ilen : olen, B < 4 ? B : 4, 24);
  }
  for (int sh = 0; sh < 2; sh++) {
    for (int l = 0; l < maxdepth; l++) expect(lv[l], lv[sh ? 0 : l]->cw);
    for (int a = 0; a < NOPS; a++)
      for (int b = a; b < NOPS; b++)
        for (unsigned ki = 0; ki < sizeof ks / sizeof *ks; ki++) {
          int depth = maxdepth;
          if (sh && (a < SENC || (a >= BENC) != (b >= BENC))) continue;
          while (depth > 4 && depth * ks[ki] > steps) depth /= 2;
          if (depth * ks[ki] > 4 * steps) continue;
          if (!case_begin("up to %d calls one inside the other, %s and %s%s, each interrupted at instruction %lu", depth, opname[a], opname[b], sh ? " with one key context" : "", ks[ki])) continue;
          tower(a, b, sh, depth, ks[ki]);
          if (tw.top) sample("%d calls one inside the other, %s and %s, each interrupted at instruction %lu: all right", tw.top + 1, opname[a], opname[b], ks[ki]);
        }
  }
}

static void lens_of(int shape, unsigned a, unsigned *o, unsigned *i)
{
  for (unsigned k = 0; k < RMAX; k++)
    if (shape == 0) {
      o[k] = (const unsigned[]){ a, a > 7 ? a - 3 : a, 7, 5 }[k & 3];
      i[k] = (const unsigned[]){ a > 3 ? a - 1 : a, a, 3, a }[k & 3];
    } else {
      o[k] = a - (k % 5 == 3 ? k % a : 0);
      i[k] = a - (k % 7 == 2 ? k % a : 0);
    }
}

/* what=batch: small or (full=1) full batches of packets up to maxlen bytes, an
 *             interruption at every instruction, then strides 2..strides in all phases
 * what=long:  single packets of several lengths
 * what=once:  a single interruption per call, at each step-th instruction */
static void reent(void)
{
  const char *what = arg_s("what", "batch");
  unsigned maxstride = arg_i("strides", 3), ml = arg_i("maxlen", 16), full = arg_i("full", 0), bstep = arg_i("step", 20011), sstep = arg_i("sstep", 31), minstride = arg_i("minstride", 1);
  static unsigned olen[RMAX], ilen[RMAX];
  enum { STK = 1 << 24 };
  stack_t ss = { .ss_sp = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), .ss_size = STK };
  struct link_map *lm;
  struct sigaction sa;
  if (!lib.handle || dlinfo(lib.handle, RTLD_DI_LINKMAP, &lm)) fail("no link map");
  base = lm->l_addr;
  dl_iterate_phdr(find_text, &base);
  nreg = lib_regions(reg, 16);
  for (int i = 0; i < nreg; i++) { regimg[i] = malloc(reg[i].n); memcpy(regimg[i], reg[i].p, reg[i].n); }
  al_fill = 0;
  sigaltstack(&ss, NULL);
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
  if (!strcmp(what, "tower")) { towers(arg_i("depth", 40), arg_i("steps", 100000)); stat_add("interruption_points", points); return; }
  static const unsigned ll[][2] = { { 8, 8 }, { 15, 24 }, { 24, 24 }, { 24, 15 }, { 29, 40 }, { 40, 29 }, { 40, 40 }, { 184, 184 }, { 184, 7 }, { 5, 40 } };
  unsigned nl = !strcmp(what, "long") ? sizeof ll / sizeof *ll : 1;
  for (unsigned l = 0; l < nl; l++) {
    unsigned n = full ? B : B < RP ? B : RP;
    if (n > RMAX) n = RMAX;
    lens_of(full, ml, olen, ilen);
    if (nl > 1) { olen[0] = ll[l][0]; ilen[0] = ll[l][1]; n = 1; }
    setup(&outer, 11, olen, n, nl > 1 ? MAXLEN : ml);
    setup(&inner, 23, ilen, n, nl > 1 ? MAXLEN : ml);
    for (int sh = 0; sh < 2; sh++) {
      expect(&outer, outer.cw);
      expect(&inner, sh ? outer.cw : inner.cw);
      for (int op = 0; op < NOPS; op++)
        for (int in = 0; in < NOPS; in++) {
          if (sh && (in < SENC || op < SENC || (in >= BENC) != (op >= BENC))) continue;
          if (full && (op < BENC || in < BENC)) continue;
          if (nl > 1 && (op == BSKEYSET || op >= BENC || in == BSKEYSET || in >= BENC || (op == KEYSET && in == KEYSET && l))) continue;
          if (!strcmp(what, "once")) {
            unsigned step = op >= BENC ? bstep : sstep;
            if (!case_begin("%s interrupted once by %s%s, at each %uth instruction", opname[op], opname[in], sh ? " sharing the key" : "", step)) continue;
            for (unsigned ph = (op * 5 + in * 3 + sh) % step; interrupted(op, in, sh, 1, 1, ph, 0); ph += step) ;
            continue;
          }
          for (unsigned st = minstride; st <= maxstride; st++)
            for (unsigned ph = minstride / 2; ph < st; ph += minstride)
              for (int cold = 0; cold < 2; cold++) {
                uint64_t m;
                if (cold && st > minstride) continue;
                if (!case_begin("%s (%u packets, length %u) interrupted by %s (length %u)%s at instructions %u+%uk%s", opname[op], n, olen[0], opname[in], ilen[0], sh ? " sharing the key" : "", ph, st,
                                cold ? ", first use" : "")) continue;
                m = interrupted(op, in, sh, 0, st, ph, cold);
                if (st == minstride && m == 0) { stat_add("not_stepped", 1); continue; }
                if (st == minstride) sample("%s: interrupted at %llu instructions by %s, all results right", opname[op], (unsigned long long)m, opname[in]);
              }
        }
    }
    teardown(&outer); teardown(&inner);
  }
  stat_add("interruption_points", points);
}
#else
static void reent(void) { stat_add("not_stepped", 1); }
#endif
const mode_t_ modes_reent[] = { { "reent", reent }, { NULL, NULL } };
