/* C09: call histories.
 *
 * hist_bfs  explicit-state search: a state is the contents of every live key
 *           context plus the library's own writable memory; transitions are
 *           API calls.  Run to the fixed point, it covers histories of any length
 *           over the chosen contexts, control words and packets.
 * hist_seq  all call sequences up to a depth, run straight (nothing restored).
 * hist_long long repetitions of one call.
 */
#include "mc.h"
#include <time.h>

#define MAXCTX 4
#define NCW 3
#define NBUF 2                  /* control words are passed from two places */
static const uint8_t cws[NCW][8] = {
  { 0x13, 0x57, 0x9b, 0xdf, 0x24, 0x68, 0xac, 0xe0 }, { 0xff, 0x80, 0x01, 0x7f, 0xc3, 0x3c, 0xa5, 0x5a }, { 0x13, 0x57, 0x9b, 0xdf, 0x24, 0x68, 0xac, 0xe1 } };
static uint8_t cwbuf[NBUF][8];

/* the packets of one processing call */
#define NSHAPE 4
typedef struct { unsigned n, M; unsigned len[1024]; uint8_t (*in)[184]; uint8_t (*out)[NCW][2][184]; } shape_t;
static shape_t bsh[NSHAPE];
static struct { unsigned len; uint8_t in[184], out[NCW][2][184]; } ssh[NSHAPE];
static int nbsh, nssh;

static int nsctx, nbctx;        /* contexts 0..nsctx-1 single, the rest parallel */
static struct { void *p; int cw; } ctx[MAXCTX];   /* cw: -1 not set yet */

static void add_bs(unsigned n, unsigned M, unsigned kind)
{
  shape_t *s = &bsh[nbsh++];
  s->n = n; s->M = M;
  s->in = calloc(n + 1, sizeof *s->in); s->out = calloc(n + 1, sizeof *s->out);
  for (unsigned i = 0; i < n; i++) {
    s->len[i] = kind == 0 ? M : kind == 1 ? (i * 13 + 5) % (M + 9) : i % 6 == 5 ? i % 185 : 184;
    if (s->len[i] > 184) s->len[i] = 184;
    geo_payload((i * 5 + M + kind) % GP, s->in[i], 184);
    for (int c = 0; c < NCW; c++)
      for (int d = 0; d < 2; d++) {
        ref_key rk;
        ref_set(&rk, cws[c]);
        memcpy(s->out[i][c][d], s->in[i], 184);
        (d == ENC ? ref_encrypt : ref_decrypt)(&rk, s->out[i][c][d], s->len[i] < M ? s->len[i] : M);
      }
  }
}
static void add_single(unsigned len)
{
  ssh[nssh].len = len;
  geo_payload(len, ssh[nssh].in, 184);
  for (int c = 0; c < NCW; c++)
    for (int d = 0; d < 2; d++) {
      ref_key rk;
      ref_set(&rk, cws[c]);
      memcpy(ssh[nssh].out[c][d], ssh[nssh].in, 184);
      (d == ENC ? ref_encrypt : ref_decrypt)(&rk, ssh[nssh].out[c][d], len);
    }
  nssh++;
}

enum { O_ALLOC, O_ALLOCFAIL, O_FREE, O_SET, O_RUN };
typedef struct { unsigned char kind, ctx, a, b; } op_t;
static const char *opname(op_t o)
{
  static char buf[96];
  const char *f = o.ctx < nsctx ? "single" : "parallel";
  switch (o.kind) {
    case O_ALLOC: sprintf(buf, "allocate %s context %d", f, o.ctx); break;
    case O_ALLOCFAIL: sprintf(buf, "allocate %s context without memory", f); break;
    case O_FREE: sprintf(buf, "free context %d", o.ctx); break;
    case O_SET: sprintf(buf, "set context %d to %s", o.ctx, hex(cws[o.a], 8)); break;
    default: sprintf(buf, "%s with context %d (%s, packet set %d)", dirname_(o.b), o.ctx, f, o.a);
  }
  return buf;
}
static int enabled(op_t o)
{
  int have = ctx[o.ctx].p != NULL;
  switch (o.kind) {
    case O_ALLOC: case O_ALLOCFAIL: return !have;
    case O_FREE: case O_SET: return have;
    default: return have && ctx[o.ctx].cw >= 0;
  }
}
static int nops(op_t *ops)
{
  int n = 0;
  for (int c = 0; c < nsctx + nbctx; c++) {
    ops[n++] = (op_t){ O_ALLOC, c, 0, 0 };
    if (c == 0 || c == nsctx) ops[n++] = (op_t){ O_ALLOCFAIL, c, 0, 0 };
    ops[n++] = (op_t){ O_FREE, c, 0, 0 };
    for (int w = 0; w < NCW; w++)
      for (int b = 0; b < NBUF; b++) ops[n++] = (op_t){ O_SET, c, w, b };
    for (int s = 0; s < (c < nsctx ? nssh : nbsh); s++)
      for (int d = 0; d < 2; d++) ops[n++] = (op_t){ O_RUN, c, s, d };
  }
  return n;
}
static int hints = 1;
static uint8_t sbuf[2][192], (*bbuf)[192];
static batch_t *barr;
static void perform(op_t o, int fillit)
{
  int c = o.ctx, bs = c >= nsctx;
  if (fillit) stack_fill(0x5a);
  switch (o.kind) {
    case O_ALLOC:
      al_hint = hints ? c * 64 : 0;
      ctx[c].p = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
      ctx[c].cw = -1;
      al_hint = 0;
      break;
    case O_ALLOCFAIL: {
      void *p;
      int r;
      al_reset_fail(); al_failall = 1;
      r = bs ? l_bs_key_alloc((bkey **)&p) : l_key_alloc((skey **)&p);
      al_reset_fail();
      if (r) fail("allocation without memory %s", outcome_name(r));
      if (p) fail("allocation without memory returned a context");
      break; }
    case O_FREE:
      if (bs) m_bs_key_free(ctx[c].p); else m_key_free(ctx[c].p);
      ctx[c].p = NULL; ctx[c].cw = -1;
      break;
    case O_SET:
      memcpy(cwbuf[o.b], cws[o.a], 8);
      if (bs) m_bs_key_set(cwbuf[o.b], ctx[c].p); else m_key_set(cwbuf[o.b], ctx[c].p);
      memset(cwbuf[o.b], 0xee, 8);      /* a context must not refer to the caller's control word */
      ctx[c].cw = o.a;
      break;
    default:
      if (!bs) {
        uint8_t *d = sbuf[o.a & 1];
        memcpy(d, ssh[o.a].in, 184); memset(d + 184, 0xc7, 8);
        m_crypt(o.b, ctx[c].p, d, ssh[o.a].len);
        check_bytes(d, ssh[o.a].out[ctx[c].cw][o.b], 184, "%s: wrong for the control word last set, %s", opname(o), hex(cws[ctx[c].cw], 8));
      } else {
        shape_t *s = &bsh[o.a];
        for (unsigned i = 0; i < s->n; i++) {
          memcpy(bbuf[i], s->in[i], 184); memset(bbuf[i] + 184, 0xc7, 8);
          barr[i] = (batch_t){ bbuf[i], s->len[i] };
        }
        barr[s->n] = (batch_t){ NULL, TERMLEN };
        m_bs_crypt(o.b, ctx[c].p, barr, s->M);
        for (unsigned i = 0; i < s->n; i++)
          check_bytes(bbuf[i], s->out[i][ctx[c].cw][o.b], 184, "%s: slot %u: wrong for the control word last set, %s", opname(o), i, hex(cws[ctx[c].cw], 8));
      }
  }
  if (al_check()) fail("%s: %s", opname(o), al_error);
}

static void setup(void)
{
  nsctx = arg_i("nsctx", 2); nbctx = arg_i("nbctx", 2);
  if (nsctx + nbctx > MAXCTX) nbctx = MAXCTX - nsctx;
  hints = arg_i("hints", 1);
  add_single(8); add_single(29); add_single(16);
  if (arg_i("shapes", 4) > 0) add_bs(1, 8, 0);
  if (arg_i("shapes", 4) > 1) add_bs(3, 24, 1);
  if (arg_i("shapes", 4) > 2) add_bs(B, 184, 2);
  if (arg_i("shapes", 4) > 3) add_bs(0, 16, 0);
  bbuf = calloc(B, sizeof *bbuf); barr = calloc(B + 1, sizeof *barr);
}

/* ---- state space ------------------------------------------------------------- */
#define MAXREG 4
#define MAXALL 32
typedef struct { int nall, reg[MAXREG]; struct { short ctxp, cw; } c[MAXCTX]; al_snap all[MAXALL]; int parent; op_t via; } state_t;
static state_t *S;
static int nS, capS, *shash;
#define SHASH (1 << 18)
static region_t reg[MAXREG];
static int nreg;

static uint64_t skey_(const state_t *s)
{
  uint64_t h = 1;
  for (int i = 0; i < nreg; i++) h = mix64(h ^ s->reg[i]);
  for (int i = 0; i < nsctx + nbctx; i++) h = mix64(h ^ (uint64_t)(s->c[i].ctxp + 7) << 16 ^ (s->c[i].cw + 3));
  for (int i = 0; i < s->nall; i++) h = mix64(h ^ (uint64_t)(uintptr_t)s->all[i].r.p * 31 ^ s->all[i].blob);
  return h;
}
static int same(const state_t *a, const state_t *b)
{
  if (a->nall != b->nall || memcmp(a->reg, b->reg, nreg * sizeof *a->reg) || memcmp(a->c, b->c, sizeof a->c)) return 0;
  for (int i = 0; i < a->nall; i++) if (a->all[i].r.p != b->all[i].r.p || a->all[i].blob != b->all[i].blob) return 0;
  return 1;
}
static void capture(state_t *s)
{
  memset(s, 0, sizeof *s);
  s->nall = al_save(s->all, MAXALL);
  if (s->nall < 0) fail("%d live allocations for %d contexts", MAXALL, nsctx + nbctx);
  for (int i = 0; i < nreg; i++) s->reg[i] = intern(reg[i].p, reg[i].n);
  for (int i = 0; i < nsctx + nbctx; i++) {
    s->c[i].cw = ctx[i].cw; s->c[i].ctxp = -1;
    for (int j = 0; j < s->nall; j++)   /* which allocation the context lies in */
      if ((uint8_t *)ctx[i].p >= s->all[j].r.base && (uint8_t *)ctx[i].p < s->all[j].r.base + s->all[j].r.span) s->c[i].ctxp = j;
    if (ctx[i].p && s->c[i].ctxp < 0) s->c[i].ctxp = 100;
  }
}
static void **ctxp_of;          /* context pointers per state */
static void restore(int n)
{
  al_restore(S[n].all, S[n].nall);
  for (int i = 0; i < nreg; i++)
    if (memcmp(reg[i].p, blob_data(S[n].reg[i]), reg[i].n)) memcpy(reg[i].p, blob_data(S[n].reg[i]), reg[i].n);
  for (int i = 0; i < nsctx + nbctx; i++) { ctx[i].cw = S[n].c[i].cw; ctx[i].p = ctxp_of[n * MAXCTX + i]; }
}
static int lookup_add(int parent, op_t via)
{
  static state_t t;
  uint64_t h;
  int i;
  capture(&t);
  h = skey_(&t) % SHASH;
  for (i = shash[h]; i; i = shash[SHASH + i - 1])
    if (same(&S[i - 1], &t)) return i - 1;
  if (nS == capS) {
    int old = capS;
    S = realloc(S, (capS = capS ? 2 * capS : 1024) * sizeof *S);
    ctxp_of = realloc(ctxp_of, (size_t)capS * MAXCTX * sizeof *ctxp_of);
    shash = realloc(shash, (SHASH + capS) * sizeof *shash);
    if (!old) memset(shash, 0, SHASH * sizeof *shash);
  }
  t.parent = parent; t.via = via;
  S[nS] = t;
  for (int k = 0; k < MAXCTX; k++) ctxp_of[nS * MAXCTX + k] = ctx[k].p;
  shash[SHASH + nS] = shash[h];
  shash[h] = ++nS;
  return -nS;
}
static void path_desc(int n, op_t o, char *buf, size_t max)
{
  int chain[256], k = 0;
  size_t l = 0;
  buf[0] = 0;
  for (int i = n; i > 0 && k < 256; i = S[i].parent) chain[k++] = i;
  while (k--) l += snprintf(buf + l, l < max ? max - l : 0, "%s; ", opname(S[chain[k]].via));
  if (l < max) snprintf(buf + l, max - l, "%s", opname(o));
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void hist_bfs(void)
{
  op_t ops[256];
  double t0 = now(), limit = arg_i("time", 60);
  long maxstates = arg_i("maxstates", 30000);
  static char d[900];
  int n, full = 1;
  setup();
  n = nops(ops);
  case_begin("initial state");
  /* every page of the writable image is touched once, lazily bound things are bound */
  nreg = lib_regions(reg, MAXREG);
  if (!nreg) stat_add("no_regions", 1);
  memset(shash = NULL, 0, 0);
  capS = 1024;
  S = malloc(capS * sizeof *S); ctxp_of = malloc((size_t)capS * MAXCTX * sizeof *ctxp_of);
  shash = calloc(SHASH + capS, sizeof *shash);
  for (int i = 0; i < MAXCTX; i++) ctx[i].cw = -1;
  lookup_add(-1, (op_t){ 0, 0, 0, 0 });
  for (int s = 0; s < nS; s++) {
    if (now() - t0 > limit || nS > maxstates || blob_bytes > (size_t)2 << 30) { full = 0; stat_add("unexpanded_states", nS - s); break; }
    for (int i = 0; i < n; i++) {
      restore(s);
      if (!enabled(ops[i])) continue;
      path_desc(s, ops[i], d, sizeof d);
      int keep = only_case >= 0;
      case_begin("%s", d);
      if (keep && case_idx == (uint64_t)only_case) printf("REPLAYING %s\n", d);
      perform(ops[i], 1);
      lookup_add(s, ops[i]);
      if (s > 20 && i == n - 1) sample("history: %s", d);
    }
  }
  st_states = nS;
  stat_add("fixed_point", full);
  restore(0);
}

/* ---- straight sequences -------------------------------------------------------- */
static op_t *seq_ops; static int seq_n, seq_depth;
static op_t seq[16];
static void seq_rec(int d)
{
  if (d == seq_depth) {
    char desc[700];
    size_t l = 0;
    static const int start[2] = { 0, 1 };
    for (int i = 0; i < d && l < sizeof desc - 80; i++) l += snprintf(desc + l, sizeof desc - l, "%s; ", opname(seq[i]));
    if (!case_begin("contexts allocated and set; then %s", desc)) return;
    for (int c = 0; c < nsctx + nbctx; c++) { perform((op_t){ O_ALLOC, c, 0, 0 }, 0); perform((op_t){ O_SET, c, start[c & 1], 0 }, 0); }
    for (int i = 0; i < d; i++) if (enabled(seq[i])) perform(seq[i], 0);
    for (int c = 0; c < nsctx + nbctx; c++) {
      if (ctx[c].p && ctx[c].cw >= 0) perform((op_t){ O_RUN, c, 0, 0 }, 0);
      if (ctx[c].p) perform((op_t){ O_FREE, c, 0, 0 }, 0);
    }
    if (al_live()) fail("%d allocations still live after freeing every context", al_live());
    sample("%s", desc);
    return;
  }
  for (int i = 0; i < seq_n; i++) {
    /* what is enabled depends only on the calls so far */
    int alive = 1, set = 1;
    for (int j = 0; j < d; j++)
      if (seq[j].ctx == seq_ops[i].ctx) {
        if (seq[j].kind == O_FREE) alive = set = 0;
        if (seq[j].kind == O_ALLOC) alive = 1, set = 0;
        if (seq[j].kind == O_SET) set = 1;
      }
    switch (seq_ops[i].kind) {
      case O_ALLOC: case O_ALLOCFAIL: if (alive) continue; break;
      case O_FREE: case O_SET: if (!alive) continue; break;
      default: if (!alive || !set) continue;
    }
    seq[d] = seq_ops[i];
    seq_rec(d + 1);
  }
}
static void hist_seq(void)
{
  static op_t ops[256], use[256];
  int n, m = 0;
  setup();
  n = nops(ops);
  for (int i = 0; i < n; i++) {
    if (ops[i].kind == O_SET && ops[i].b != (ops[i].a == 2)) continue;  /* words 0 and 1 from one place, word 2 from another */
    if (ops[i].kind == O_ALLOCFAIL) continue;
    use[m++] = ops[i];
  }
  seq_ops = use; seq_n = m;
  seq_depth = arg_i("depth", 3);
  seq_rec(0);
}

/* ---- repetition ------------------------------------------------------------------ */
static void hist_long(void)
{
  op_t ops[256];
  int n;
  long reps = arg_i("reps", 1 << 17), pos;
  setup();
  n = nops(ops);
  for (int i = 0; i < n; i++) {
    op_t o = ops[i];
    int c = o.ctx, bs = c >= nsctx;
    if (o.kind != O_RUN && o.kind != O_SET) continue;
    if (o.kind == O_SET && (o.b || o.a == 2)) continue;
    if (c != 0 && c != nsctx) continue;
    if (bs && o.kind == O_RUN && bsh[o.a].n > 4) continue;
    if (!case_begin("%s, %ld times", opname(o), reps)) continue;
    perform((op_t){ O_ALLOC, c, 0, 0 }, 0);
    perform((op_t){ O_SET, c, 1, 0 }, 0);
    for (pos = 0; pos < reps; pos++) perform(o, 0);
    for (int s = 0; s < (bs ? nbsh : nssh); s++) perform((op_t){ O_RUN, c, s, 1 }, 0);
    perform((op_t){ O_SET, c, 2, 0 }, 0);
    for (int s = 0; s < (bs ? nbsh : nssh); s++) perform((op_t){ O_RUN, c, s, 0 }, 0);
    perform((op_t){ O_FREE, c, 0, 0 }, 0);
  }
  if (case_begin("both flavours allocated, set, used and freed %ld times", reps / 8)) {
    for (pos = 0; pos < reps / 8; pos++)
      for (int c = 0; c < 2; c++) {
        int x = c ? nsctx : 0;
        perform((op_t){ O_ALLOC, x, 0, 0 }, 0); perform((op_t){ O_SET, x, pos % NCW, 0 }, 0);
        perform((op_t){ O_RUN, x, 0, pos & 1 }, 0);
        perform((op_t){ O_FREE, x, 0, 0 }, 0);
      }
    if (al_live()) fail("%d allocations still live after freeing every context", al_live());
  }
}

/* ---- related arguments one after the other ---------------------------------------
 * What is kept from an earlier call must not be mistaken for this one's: a control
 * word (payload) is followed by every word (payload) that agrees with it in part. */
static int cw_related(unsigned i, const uint8_t *base, uint8_t *o)
{
  memcpy(o, base, 8);
  if (i < 255) { for (int b = 0; b < 8; b++) if (i + 1 >> b & 1) o[b] ^= 0x5b + 17 * b; return 1; }  /* any set of bytes differs */
  i -= 255;
  if (i < 64) { o[i >> 3] ^= 1 << (i & 7); return 1; }
  i -= 64;
  if (i < 64 * 64) {                    /* two bits; same xor, same sum */
    if ((i >> 6) <= (i & 63)) { o[i >> 9] ^= 1 << (i >> 6 & 7); if ((i >> 6) != (i & 63)) o[i >> 3 & 7] ^= 1 << (i & 7); }
    else { o[i >> 9] += 1 + (i & 7); o[i >> 3 & 7] -= 1 + (i & 7); }
    return 1;
  }
  i -= 64 * 64;
  if (i < 64) { uint8_t t = o[i >> 3]; o[i >> 3] = o[i & 7]; o[i & 7] = t; return 1; }
  i -= 64;
  if (i < 8) { for (int b = 0; b < 8; b++) o[b] = base[(b + i) & 7]; return 1; }
  i -= 8;
  if (i < 1) { for (int b = 0; b < 8; b++) o[b] = base[7 - b]; return 1; }
  return 0;
}
static void use24(int bs, void *k, const uint8_t *cw, int dir, const char *when)
{
  static const uint8_t pay[24] = { 9, 8, 7, 0xf6, 5, 0x14, 3, 2, 1, 0x70, 0x99, 0xfe, 0x43, 0x21, 0, 0xff, 0x80, 0x7f, 0x55, 0xaa, 0x12, 0x34, 0x56, 0x78 };
  uint8_t a[24], b[32];
  ref_key rk;
  ref_set(&rk, cw);
  memcpy(a, pay, 24); memcpy(b, pay, 24);
  (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, a, 24);
  if (bs) { batch_t t[2] = { { b, 24 }, { NULL, TERMLEN } }; m_bs_crypt(dir, k, t, 24); }
  else m_crypt(dir, k, b, 24);
  check_bytes(b, a, 24, "%s with the context set to %s, %s", dirname_(dir), hex(cw, 8), when);
}
static void rekey(void)
{
  unsigned step = arg_i("step", 1), nb = arg_i("bases", 4);
  uint8_t base[8], cw[8], probe[8];
  for (int bs = 0; bs < 2; bs++)
    for (unsigned bi = 0; bi < nb; bi++) {
      if (bi < 2) geo_cw(bi, base); else special_cw(bi, base);
      for (unsigned i0 = 0; cw_related(i0, base, probe); i0 += 128) {
        if (!case_begin("%s contexts set to %s and then to related words %u..", bs ? "parallel" : "single-packet", hex(base, 8), i0)) continue;
        void *k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc(), *l = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
#define SET(c, w) (bs ? m_bs_key_set(w, c) : m_key_set(w, c))
        for (unsigned i = i0; i < i0 + 128 && cw_related(i, base, cw); i += step) {
          int d = i & 1;
          SET(k, base); use24(bs, k, base, d, "first");
          SET(k, cw); use24(bs, k, cw, d, "then"); use24(bs, k, cw, !d, "then");
          SET(l, base); use24(bs, l, base, d, "another context");
          use24(bs, k, cw, d, "after another context was set to a related word");
          SET(k, base); use24(bs, k, base, d, "set back");
          SET(l, cw); use24(bs, k, base, d, "after another context was set to a related word"); use24(bs, l, cw, d, "another context, later");
        }
        if (bs) { m_bs_key_free(k); m_bs_key_free(l); } else { m_key_free(k); m_key_free(l); }
      }
    }
}
static int pay_related(unsigned i, const uint8_t *base, uint8_t *o, unsigned len, unsigned *olen)
{
  memcpy(o, base, 192);
  *olen = len;
  if (i < 255) { for (unsigned b = 0; b < 8; b++) if (i + 1 >> b & 1) o[b] ^= 0x5b + 17 * b; return 1; }
  i -= 255;
  if (i < 8 * len) { o[i >> 3] ^= 1 << (i & 7); return 1; }
  i -= 8 * len;
  if (i < len) { o[i] = ~o[i]; if (i + 1 < len) o[i + 1] ^= 0x11; return 1; }
  i -= len;
  if (i < 23) { for (unsigned b = 8 * i; b < 8 * i + 8; b++) o[b] ^= 0xa7 + b; return 1; }              /* one block differs */
  i -= 23;
  if (i < 23) { for (unsigned b = 0; b < 184; b++) if (b / 8 != i) o[b] ^= 0xa7 + b; return 1; }          /* one block agrees */
  i -= 23;
  if (i < 185) { *olen = i; return 1; }
  return 0;
}
static void repay(void)
{
  static const unsigned lens[] = { 184, 29, 16, 8, 9 };
  unsigned step = arg_i("step", 1), nl = arg_i("nlens", 5);
  uint8_t base[192], pay[192], x[200], w[192], cw[8], dummy[192];
  ref_key rk;
  geo_cw(0, cw); ref_set(&rk, cw);
  geo_payload(77, base, 192);
  for (int bs = 0; bs < 2; bs++)
    for (unsigned li = 0; li < nl; li++)
      for (int dd = 0; dd < 4; dd++) {
        unsigned len = lens[li], ol;
        for (unsigned i0 = 0; pay_related(i0, base, dummy, len, &ol); i0 += 128) {
          if (!case_begin("%s %s of %u bytes, then %s of related payloads %u..", bs ? "parallel" : "single-packet", dirname_(dd & 1), len, dirname_(dd >> 1), i0)) continue;
          void *k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
          SET(k, cw);
          for (unsigned i = i0; i < i0 + 128 && pay_related(i, base, pay, len, &ol); i += step) {
            for (int pass = 0; pass < 2; pass++) {
              const uint8_t *in = pass ? pay : base;
              unsigned n = pass ? ol : len;
              int dir = pass ? dd >> 1 : dd & 1;
              memcpy(x, in, 192); memcpy(w, in, 192);
              if (pass) (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, w, n);
              if (bs) { batch_t t[2] = { { x, n }, { NULL, TERMLEN } }; m_bs_crypt(dir, k, t, 184); }
              else m_crypt(dir, k, x, n);
              if (pass) check_bytes(x, w, 192, "%s of %u bytes, payload %s.., after %s of %u bytes of a related payload", dirname_(dir), n, hex(in, 16), dirname_(dd & 1), len);
            }
          }
          if (bs) m_bs_key_free(k); else m_key_free(k);
        }
      }
}

/* ---- a context set long ago -----------------------------------------------------
 * Contexts set once keep their control word through any number of calls with
 * others: after N calls of one kind the context set N calls before is used, for N
 * around every power of two; with thousands of contexts alive at once as well. */
#define MAXAGE 512
static void age_cw(uint64_t i, uint8_t *cw) { uint64_t z = mix64(i * 2 + 1); memcpy(cw, &z, 8); }
static void new_ctx(int bs, void **p) { *p = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc(); }
static void del_ctx(int bs, void *p) { if (bs) m_bs_key_free(p); else m_key_free(p); }
static void aging(void)
{
  static const char *kind[] = { "another context set to the same word", "another context set to ever new words", "a context of the other flavour set to new words",
    "packets processed with another context", "another context allocated, set and freed", "another context allocated and set" };
  long max = arg_i("max", 1 << 17), near = arg_i("near", 3);
  uint8_t cw[8], d[16], fix[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
  static long age[MAXAGE];
  static void *a[MAXAGE];
  for (int bs = 0; bs < 2; bs++)
    for (int kd = 0; kd < 6; kd++) {
      long lim = kd == 5 ? max < 1 << 14 ? max : 1 << 14 : kd == 3 ? max >> 3 : max;
      int n = 0, other = kd == 2 ? !bs : bs;
      void *o, *o2 = NULL;
      uint8_t ocw[8];
      if (!case_begin("%s contexts, set up to %ld calls ago and then: %s", bs ? "parallel" : "single-packet", lim, kind[kd])) continue;
      al_pool_on();
      /* ages, largest first, so that the contexts can be set in this order */
      for (long p = lim; p; p >>= 1)
        for (long e = near; e >= -near; e--) {
          long g = p + e;
          if (g > 0 && n < MAXAGE && (n == 0 || g < age[n - 1])) age[n++] = g;
        }
      new_ctx(other, &o); memcpy(ocw, fix, 8);
      if (other) m_bs_key_set(ocw, o); else m_key_set(ocw, o);
      for (int i = 0; i < n; i++) { new_ctx(bs, &a[i]); age_cw(i, cw); SET(a[i], cw); }
      int nx = n - 1;
      for (long t = 1; t <= age[0]; t++) {
        int probe = -1;
        while (nx >= 0 && age[nx] - (n - 1 - nx) <= t) {
          if (age[nx] - (n - 1 - nx) == t) probe = nx;
          nx--;
        }
        if (probe >= 0) { age_cw(probe, cw); use24(bs, a[probe], cw, t & 1, "long ago"); }
        case_progress_tick++;
        switch (kd) {
          case 0: if (other) m_bs_key_set(ocw, o); else m_key_set(ocw, o); break;
          case 1: case 2: age_cw(t + 100000, ocw); if (other) m_bs_key_set(ocw, o); else m_key_set(ocw, o); break;
          case 3: memset(d, t, 8);
            if (other) { batch_t b[2] = { { d, 8 }, { NULL, TERMLEN } }; m_bs_crypt(t & 1, o, b, 8); } else m_crypt(t & 1, o, d, 8);
            break;
          default:
            new_ctx(other, &o2); age_cw(t + 100000, ocw);
            if (other) m_bs_key_set(ocw, o2); else m_key_set(ocw, o2);
            if (kd == 4 && probe < 0) { del_ctx(other, o2); o2 = NULL; }
        }
        if (probe >= 0) {
          use24(other, kd > 3 ? o2 : o, ocw, t & 1, "just now");
          if (kd == 4) del_ctx(other, o2);
          age_cw(probe, cw);
          use24(bs, a[probe], cw, t & 1, "long ago"); use24(bs, a[probe], cw, !(t & 1), "long ago");
        }
      }
      for (int i = n - 1; i >= 0; i--) { age_cw(i, cw); use24(bs, a[i], cw, i & 1, "before all the others' calls"); }
      sample("%s contexts keep their control words while %ld times %s", bs ? "parallel" : "single-packet", age[0], kind[kd]);
      for (int i = n - 1; i >= 0; i--) del_ctx(bs, a[i]);
      del_ctx(other, o);
      al_pool_off();
    }
  /* many contexts alive, used in several orders, some set again or replaced */
  for (int bs = 0; bs < 2; bs++) {
    unsigned n = arg_i("crowd", 20000);
    void **c = calloc(n, sizeof *c);
    uint32_t *w = calloc(n, sizeof *w);
    if (case_begin("%u %s contexts alive at once", n, bs ? "parallel" : "single-packet")) {
      al_pool_on();
      for (unsigned i = 0; i < n; i++) { new_ctx(bs, &c[i]); w[i] = i; age_cw(i, cw); SET(c[i], cw); }
      for (int order = 0; order < 4; order++)
        for (unsigned s = 0; s < n; s++) {
          unsigned i = order == 0 ? s : order == 1 ? n - 1 - s : order == 2 ? (uint64_t)s * 7919 % n : s ^ 1;
          if (i >= n) continue;
          age_cw(w[i], cw); use24(bs, c[i], cw, s & 1, "among many others");
          if (order == 2 && s % 5 == 0) {
            if (s % 3 == 0) { del_ctx(bs, c[i]); new_ctx(bs, &c[i]); }
            w[i] = n + s; age_cw(w[i], cw); SET(c[i], cw);
          }
        }
      for (unsigned i = 0; i < n; i++) del_ctx(bs, c[i]);
      al_pool_off();
      sample("%u %s contexts alive at once, each keeping its own control word", n, bs ? "parallel" : "single-packet");
    }
    free(c); free(w);
  }
}

/* ---- millions of calls ---------------------------------------------------------------
 * The cheapest calls of each kind, each result compared, as many as there is time for. */
static void millions(void)
{
  uint64_t max = arg_i("max", (1 << 24) + 3), bmax = arg_i("bmax", (1 << 18) + 3);
  static const unsigned lens[3] = { 8, 11, 3 };
  uint8_t cw[2][8], in[16], out[2][2][16], d[16];
  ref_key rk;
  for (int w = 0; w < 2; w++) { age_cw(4711 + w, cw[w]); }
  for (int i = 0; i < 16; i++) in[i] = 37 * i + 5;
  for (int bs = 0; bs < 2; bs++)
    for (int kd = 0; kd < 4; kd++) {
      /* encrypting, decrypting, key setup, all in turn */
      uint64_t n = bs ? kd == 2 ? bmax << 3 : bmax : max;
      unsigned len = lens[kd == 3 ? 1 : 0];
      void *k, *k2;
      if (!case_begin("%s %s, %llu calls on one context", bs ? "parallel" : "single-packet", kd == 0 ? "encryption" : kd == 1 ? "decryption" : kd == 2 ? "key setup" : "calls of all kinds", (unsigned long long)n)) continue;
      for (int w = 0; w < 2; w++) {
        ref_set(&rk, cw[w]);
        for (int e = 0; e < 2; e++) { memcpy(out[w][e], in, 16); (e == ENC ? ref_encrypt : ref_decrypt)(&rk, out[w][e], len); }
      }
      new_ctx(bs, &k); new_ctx(bs, &k2);
      SET(k, cw[0]); SET(k2, cw[1]);
      batch_t b[2] = { { d, len }, { NULL, TERMLEN } };
      for (uint64_t t = 0; t < n; t++) {
        int e = kd < 2 ? (kd == 0 ? ENC : DEC) : (int)(t / 3 & 1), w = 0;
        if (kd == 2) { w = t >> 1 & 1; SET(k, cw[w]); if (t & 63) continue; }
        if (kd == 3 && t % 3 == 0) { SET(k, cw[0]); continue; }
        memcpy(d, in, 16);
        if (bs) m_bs_crypt(e, k, b, 16); else m_crypt(e, k, d, len);
        if (memcmp(d, out[w][e], 16)) check_bytes(d, out[w][e], 16, "call number %llu", (unsigned long long)t + 1);
        st_checked++;
      }
      for (int e = 0; e < 2; e++) {
        memcpy(d, in, 16);
        if (bs) m_bs_crypt(e, k2, b, 16); else m_crypt(e, k2, d, len);
        check_bytes(d, out[1][e], 16, "a context set before those calls");
      }
      sample("%llu calls on one context, each giving what the first one gave", (unsigned long long)n);
      del_ctx(bs, k); del_ctx(bs, k2);
    }
}

const mode_t_ modes_hist[] = { { "millions", millions }, { "aging", aging }, { "rekey", rekey }, { "repay", repay }, { "hist_bfs", hist_bfs }, { "hist_seq", hist_seq }, { "hist_long", hist_long }, { NULL, NULL } };
