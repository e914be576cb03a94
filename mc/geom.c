/* Batch geometry: lengths, slots, counts, maximum lengths; memory bounds. */
#include "mc.h"
#include <sys/mman.h>

static inline unsigned minu(unsigned a, unsigned b) { return a < b ? a : b; }

/* ---- one batch, checked packet by packet ------------------------------------ */
#define STRIDE 1280
#define FRONT 64
#define MAXN 1024
static uint8_t pool[MAXN][STRIDE] __attribute__((aligned(64)));
static batch_t bt[MAXN + 1];
static unsigned L_[MAXN], P_[MAXN], off_[MAXN];
static bkey *q_; static unsigned q_cw = ~0u;

static void use_key(unsigned k)
{
  uint8_t cw[8];
  if (!q_) { q_ = m_bs_key_alloc(); q_cw = ~0u; }
  if (q_cw != k) { geo_cw(k, cw); m_bs_key_set(cw, q_); q_cw = k; }
}
static void drop_key(void) { if (q_) { m_bs_key_free(q_); q_ = NULL; } }

static const uint8_t *big_ref(unsigned p) /* payload bytes of packet p, STRIDE of them */
{
  static uint8_t c[GP][STRIDE];
  static uint8_t have[GP];
  if (!have[p]) { geo_payload(p, c[p], STRIDE); have[p] = 1; }
  return c[p];
}

static void run_batch(int dir, unsigned k, unsigned n, unsigned M)
{
  use_key(k);
  for (unsigned i = 0; i < n; i++) {
    uint8_t *d = pool[i] + FRONT + off_[i];
    memset(pool[i], 0xc7, STRIDE);
    memcpy(d, big_ref(P_[i]), L_[i]);
    bt[i] = (batch_t){ d, L_[i] };
  }
  bt[n] = (batch_t){ NULL, TERMLEN };
  m_bs_crypt(dir, q_, bt, M);
  for (unsigned i = 0; i < n; i++) {
    uint8_t *d = pool[i] + FRONT + off_[i];
    unsigned eff = minu(L_[i], M);
    check_bytes(d, geo_expect(k, dir, P_[i], eff), eff, "%s key %u packet %u, length %u, in slot %u of %u, maximum length %u", dirname_(dir), k, P_[i], L_[i], i, n, M);
    check_bytes(d + eff, big_ref(P_[i]) + eff, L_[i] - eff, "%s packet %u, length %u, in slot %u of %u, maximum length %u: bytes beyond %u changed", dirname_(dir), P_[i], L_[i], i, n, M, eff);
    for (uint8_t *c = pool[i]; c < d; c++) if (*c != 0xc7) fail("%s length %u slot %u of %u maximum length %u: wrote %d bytes before the payload", dirname_(dir), L_[i], i, n, M, (int)(d - c));
    for (uint8_t *c = d + L_[i]; c < pool[i] + STRIDE; c++) if (*c != 0xc7) fail("%s length %u slot %u of %u maximum length %u: wrote %d bytes behind the payload", dirname_(dir), L_[i], i, n, M, (int)(c - d - L_[i]));
  }
  if (lib.bs_batch_size() != B) fail("dvbcsa_bs_batch_size() changed from %u to %u", B, lib.bs_batch_size());
}
/* the single-packet flavour on the same data, for the comparison flavour by flavour */
static void against_single(int dir, unsigned k, unsigned n)
{
  static uint8_t d[MAXLEN];
  uint8_t cw[8];
  skey *s = m_key_alloc();
  geo_cw(k, cw);
  m_key_set(cw, s);
  for (unsigned i = 0; i < n; i++) {
    memcpy(d, big_ref(P_[i]), L_[i]);
    m_crypt(dir, s, d, L_[i]);
    check_bytes(bt[i].data, d, L_[i], "%s key %u packet %u, length %u, slot %u of %u: parallel and single-packet results differ", dirname_(dir), k, P_[i], L_[i], i, n);
  }
  m_key_free(s);
}

/* C03: mixtures of lengths.  Over the shifts every (slot, length) occurs; over
 * the strides every pair of lengths in neighbouring slots does too. */
static void mix(void)
{
  unsigned smin = arg_i("smin", 1), smax = arg_i("smax", 8), sstep = arg_i("sstep", 1), step = arg_i("step", 1), nk = arg_i("nk", GK);
  int cmp = arg_i("cmp", 0);
  for (unsigned st = smin; st <= smax; st += sstep)
    for (unsigned s = 0; s < 185; s += step)
      for (int dir = 0; dir < 2; dir++) {
        unsigned k = (s + st) % nk;
        if (!case_begin("parallel %s, key %u, lengths (%u*i+%u)%%185 in %u slots", dirname_(dir), k, st, s, B)) continue;
        for (unsigned i = 0; i < B; i++) { L_[i] = (st * i + s) % 185; P_[i] = (i * 7 + s + (i % 13 == 5) * 3) % GP; off_[i] = 0; }
        run_batch(dir, k, B, 184);
        if (cmp && s % 8 == 0) against_single(dir, k, B);
        sample("parallel %s: lengths (%u*i+%u) mod 185 in slots 0..%u, each packet equal to the reference", dirname_(dir), st, s, B - 1);
      }
  drop_key();
}

/* C05: position, count, neighbours */
static unsigned prof_len(unsigned prof, unsigned i)
{
  static const unsigned few[] = { 184, 0, 8, 183, 1, 16, 7, 100, 9, 64 };
  switch (prof) {
    case 0: return 184;
    case 1: return 8 + i % 3;
    case 2: return few[i % 10];
    case 3: return (i * 37 + 11) % 185;
    case 4: return (i * 61 + 184) % 185;
    case 5: return i & 1 ? 0 : 184;
    default: return 184 - i % 185;
  }
}
#define NPROF 7
static void batch(void)
{
  unsigned step = arg_i("step", 1);
  static const unsigned Ms[] = { 184, 64, 8, 0, 120 };
  unsigned nm = arg_i("nm", 3), np = arg_i("np", NPROF);
  /* every count 0..B */
  for (unsigned n = 0; n <= B; n += n + 8 >= B || n < 9 ? 1 : step)
    for (unsigned prof = 0; prof < np; prof++)
      for (unsigned m = 0; m < nm; m++)
        for (int dir = 0; dir < 2; dir++) {
          unsigned k = (n + prof) % GK;
          if (!case_begin("parallel %s, %u packets of length profile %u, maximum length %u", dirname_(dir), n, prof, Ms[m])) continue;
          for (unsigned i = 0; i < n; i++) { L_[i] = prof_len(prof, i + n); P_[i] = (i * 3 + n) % GP; off_[i] = 0; }
          run_batch(dir, k, n, Ms[m]);
          sample("parallel %s: batch of %u packets, maximum length %u, each packet equal to the reference", dirname_(dir), n, Ms[m]);
        }
  /* every packet in every slot: rotations */
  for (unsigned r = 0; r < B; r += step)
    for (unsigned prof = 0; prof < np; prof += 3)
      for (int dir = 0; dir < 2; dir++) {
        if (!case_begin("parallel %s, packets of profile %u rotated by %u", dirname_(dir), prof, r)) continue;
        for (unsigned i = 0; i < B; i++) { unsigned p = (i + r) % B; L_[i] = prof_len(prof, p); P_[i] = p % GP; off_[i] = 0; }
        run_batch(dir, (r + prof) % GK, B, 184);
      }
  /* one packet among others of every kind */
  for (unsigned slot = 0; slot < B; slot += step)
    for (unsigned ol = 0; ol < 6; ol++)
      for (unsigned oc = 0; oc < 3; oc++)
        for (int dir = 0; dir < 2; dir++) {
          static const unsigned olen[] = { 0, 7, 8, 184, 176, 15 };
          if (!case_begin("parallel %s, one packet in slot %u among others of %u bytes of kind %u", dirname_(dir), slot, olen[ol], oc)) continue;
          for (unsigned i = 0; i < B; i++) { L_[i] = olen[ol]; P_[i] = 256 + oc; off_[i] = 0; }
          L_[slot] = (slot * 3 + 184 - ol * 13) % 185; P_[slot] = slot % 256;
          run_batch(dir, slot % GK, B, 184);
        }
  drop_key();
}
/* C05: pairs of slots: what is in slot j never shows in slot i */
static void slotpairs(void)
{
  unsigned step = arg_i("step", 1);
  for (unsigned j = 0; j < B; j += step)
    for (unsigned var = 0; var < 6; var++)
      for (int dir = 0; dir < 2; dir++) {
        static const unsigned vl[] = { 0, 184, 8, 97, 184, 5 };
        if (!case_begin("parallel %s, full batch, packet in slot %u replaced by variant %u", dirname_(dir), j, var)) continue;
        for (unsigned i = 0; i < B; i++) { L_[i] = 184 - (i % 5 == 4 ? i % 23 : 0); P_[i] = i % 256; off_[i] = 0; }
        L_[j] = vl[var]; P_[j] = var < 3 ? 256 + var % 2 : (j + 1) % 256;
        run_batch(dir, 0, B, 184);
      }
  drop_key();
}

/* C05: a batch holding packets that agree in part: the one in slot j is derived
 * from the one in slot i */
static void related(void)
{
  unsigned step = arg_i("step", 1), jstep = arg_i("jstep", 1);
  static uint8_t pl[2][192], w[192];
  uint8_t cw[8];
  ref_key rk;
  geo_cw(0, cw); ref_set(&rk, cw);
  for (unsigned i = 0; i < B; i += step)
    for (unsigned var = 0; var < 6; var++)
      for (int dir = 0; dir < 2; dir++) {
        if (!case_begin("parallel %s, full batch, variant %u of the packet in slot %u in every other slot in turn", dirname_(dir), var, i)) continue;
        use_key(0);
        for (unsigned j = (i + 1) % jstep; j < B; j += jstep) {
          if (j == i) continue;
          unsigned la = 184 - (i + j) % 9, lb = la, v = var;
          geo_payload((i * 11 + j) % 256, pl[0], 192);
          memcpy(pl[1], pl[0], 192);
          switch (v) {
            case 0: break;                                                      /* equal */
            case 1: pl[1][la - 1] ^= 1; break;                                  /* last byte differs */
            case 2: for (int b = 8; b < 192; b++) pl[1][b] ^= 0x3d + b; break;  /* first block agrees */
            case 3: pl[1][j & 7] ^= 0x80; break;                                /* one bit of the first block */
            case 4: lb = (i * 5 + j) % 185; break;                              /* other length */
            default: pl[1][8 + (i + j) % 150] ^= 1 << (j & 7);
          }
          for (unsigned s = 0; s < B; s++) {
            unsigned p = s == i || s == j ? 0 : (s + 1) % 256;
            L_[s] = s == i ? la : s == j ? lb : s % 4 ? 8 : 184;
            memcpy(pool[s], s == i ? pl[0] : s == j ? pl[1] : big_ref(p), 192);
            bt[s] = (batch_t){ pool[s], L_[s] };
          }
          bt[B] = (batch_t){ NULL, TERMLEN };
          m_bs_crypt(dir, q_, bt, 184);
          for (int h = 0; h < 2; h++) {
            unsigned s = h ? j : i;
            memcpy(w, pl[h], 192);
            (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, w, L_[s]);
            check_bytes(pool[s], w, 192, "%s: packets of %u and %u bytes that agree in part (variant %u) in slots %u and %u: the one in slot %u", dirname_(dir), la, lb, v, i, j, s);
          }
          for (unsigned s = 0; s < B; s++)
            if (s != i && s != j)
              check_bytes(pool[s], geo_expect(0, dir, (s + 1) % 256, L_[s]), L_[s], "%s: slot %u of a batch with related packets in slots %u and %u", dirname_(dir), s, i, j);
        }
      }
  drop_key();
}

/* C05: batches made of two packets only, which agree in part: one slot holding
 * the other one, the first or last s slots, or every s-th slot */
static void twokinds(void)
{
  unsigned step = arg_i("step", 1), nk = arg_i("kinds", 10);
  static uint8_t pl[2][192], w[2][192];
  static unsigned which[MAXN];
  uint8_t cw[8];
  ref_key rk;
  geo_cw(0, cw); ref_set(&rk, cw);
  for (unsigned arr = 0; arr < 4; arr++)
    for (unsigned kind = 0; kind < nk; kind++)
      for (int dir = 0; dir < 2; dir++) {
        static const char *const an[] = { "in one slot", "up to a slot", "in every s-th slot", "everywhere but in two slots" };
        if (!case_begin("parallel %s, full batch of two packets (variant %u), the second one %s", dirname_(dir), kind, an[arr])) continue;
        use_key(0);
        for (unsigned s = dir % step; s < B; s += step) {
          unsigned l0 = 184, l1 = 184;
          geo_payload((s + kind) % 256, pl[0], 192);
          if (kind & 1) memset(pl[0], s, 192);
          memcpy(pl[1], pl[0], 192);
          switch (kind / 2) {
            case 0: for (int b = 0; b < 192; b++) pl[1][b] ^= 0x3d + b; break;
            case 1: for (int b = 4; b < 8; b++) pl[1][b] ^= 0xc1 + b; break;
            case 2: pl[1][s & 3] ^= 1 << (s & 7); break;
            case 3: pl[1][16 + s % 168] ^= 0x11; break;
            default: l1 = s % 184; break;
          }
          for (int h = 0; h < 2; h++) { memcpy(w[h], pl[h], 192); (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, w[h], h ? l1 : l0); }
          for (unsigned i = 0; i < B; i++) {
            int h = arr == 0 ? i == s : arr == 1 ? i <= s : arr == 2 ? i % (s + 1) == s / 2 : i != s && i != (s * 7 + 3) % B;
            which[i] = h;
            memcpy(pool[i], pl[h], 192);
            bt[i] = (batch_t){ pool[i], h ? l1 : l0 };
          }
          bt[B] = (batch_t){ NULL, TERMLEN };
          m_bs_crypt(dir, q_, bt, 184);
          for (unsigned i = 0; i < B; i++)
            if (memcmp(pool[i], w[which[i]], 192))
              check_bytes(pool[i], w[which[i]], 192, "%s: slot %u of %u (s=%u), holding packet %u of two alike (%u and %u bytes)", dirname_(dir), i, B, s, which[i], l0, l1);
          st_checked += B;
        }
      }

  drop_key();
}

/* C06: maximum length x packet length, beyond 184 too */
static void maxlen(void)
{
  unsigned step = arg_i("step", 1), top = arg_i("top", 201), nstr = arg_i("nstr", 2), mstep = arg_i("mstep", 8);
  static const unsigned strides[] = { 1, 37, 100, 13 };
  static const unsigned edge[] = { 185, 186, 191, 192, 193, 200, 208, 255, 256, 257, 368, 369, 376, 511, 512, 552, 1000, 1024, 1151 };
  for (unsigned M = 0; M <= 184; M += mstep)
    for (unsigned t = 0; t < nstr; t++)
      for (unsigned s = 0; s < top; s += step)
        for (int dir = 0; dir < 2; dir++) {
          unsigned n = t == 1 ? B - s % B : B, k = (s + M / 8) % GK;
          if (!case_begin("parallel %s, maximum length %u, %u packets of lengths (%u*i+%u)%%%u", dirname_(dir), M, n, strides[t], s, top)) continue;
          for (unsigned i = 0; i < n; i++) { L_[i] = (strides[t] * i + s) % top; P_[i] = (i + s) % GP; off_[i] = 0; }
          run_batch(dir, k, n, M);
          sample("parallel %s, maximum length %u, lengths (%u*i+%u) mod %u in %u slots", dirname_(dir), M, strides[t], s, top, n);
        }
  /* one longer packet in every slot among ordinary ones */
  for (unsigned M = 0; M <= 184; M += arg_i("emstep", 8) )
    for (unsigned e = 0; e < sizeof edge / sizeof *edge; e++)
      for (unsigned slot = 0; slot < B; slot += slot + 2 >= B ? 1 : arg_i("slotstep", 7))
        for (int dir = 0; dir < 2; dir++) {
          if (!case_begin("parallel %s, maximum length %u, a packet of %u bytes in slot %u", dirname_(dir), M, edge[e], slot)) continue;
          for (unsigned i = 0; i < B; i++) { L_[i] = 184 - i % 9; P_[i] = i % 256; off_[i] = 0; }
          L_[slot] = edge[e];
          run_batch(dir, e % GK, B, M);
        }
  drop_key();
}
/* packets far longer than the maximum, up to the largest expressible length */
static void longpkt(void)
{
  static const uint64_t lens[] = { 65535, 65536, 65544, 65720, 1u << 20, (1u << 24) + 8, 0x7fffffff, 0x80000000, 0x800000b8, 0xfffffff8, 0xffffffff };
  for (unsigned e = 0; e < sizeof lens / sizeof *lens; e++)
    for (unsigned M = 0; M <= 184; M += 8)
      for (int dir = 0; dir < 2; dir++)
        for (unsigned where = 0; where < 3; where++) {
          unsigned slot = where == 0 ? 0 : where == 1 ? B / 2 : B - 1, n = where == 2 ? B : slot + 1, k = e % GK;
          uint64_t span = (lens[e] + 8191) & ~4095ull;
          if (!case_begin("parallel %s, maximum length %u, a packet of %llu bytes in slot %u of %u", dirname_(dir), M, (unsigned long long)lens[e], slot, n)) continue;
          uint8_t *m;
          if (sizeof(size_t) < 8 && lens[e] > 0x3fffffff) continue;
          m = mmap(NULL, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
          if (m == MAP_FAILED) { stat_add("unmappable", 1); continue; }
          use_key(k);
          for (unsigned i = 0; i < n; i++) {
            L_[i] = 180; P_[i] = i % 256;
            memcpy(pool[i], big_ref(P_[i]), 184);
            bt[i] = (batch_t){ pool[i], 180 };
          }
          memcpy(m, big_ref(5), 1024);
          bt[slot] = (batch_t){ m, (unsigned)lens[e] };
          bt[n] = (batch_t){ NULL, TERMLEN };
          m_bs_crypt(dir, q_, bt, M);
          check_bytes(m, geo_expect(k, dir, 5, M), M, "%s of %llu bytes at maximum length %u", dirname_(dir), (unsigned long long)lens[e], M);
          check_bytes(m + M, big_ref(5) + M, 1024 - M, "%s of %llu bytes at maximum length %u: bytes beyond", dirname_(dir), (unsigned long long)lens[e], M);
          for (unsigned i = 0; i < n; i++) if (i != slot)
            check_bytes(pool[i], geo_expect(k, dir, P_[i], minu(180, M)), minu(180, M), "%s next to a packet of %llu bytes, slot %u", dirname_(dir), (unsigned long long)lens[e], i);
          munmap(m, span);
        }
  drop_key();
}

/* ---- C08: guard pages ------------------------------------------------------------ */
/* single-packet calls: the payload ends (or starts) at an inaccessible page */
static void guard_single(void)
{
  unsigned max = arg_i("max", 520);
  static uint8_t cwbuf[8];
  uint8_t *e = guard_end(4096), *s = guard_start(4096), *ce = guard_end(8), *cs = guard_start(8);
  ref_key rk;
  for (unsigned len = 0; len < max; len++)
    for (int dir = 0; dir < 2; dir++)
      for (int side = 0; side < 2; side++) {
        uint8_t want[2048], *d = side ? s : e + 4096 - len, *c = side ? cs : ce;
        if (!case_begin("single-packet %s of %u bytes %s an inaccessible page; the key read-only", dirname_(dir), len, side ? "right behind" : "right before")) continue;
        geo_cw(len % GK, cwbuf);
        ref_set(&rk, cwbuf);
        guard_prot(c, 8, PROT_READ | PROT_WRITE); memcpy(c, cwbuf, 8); guard_prot(c, 8, PROT_READ);
        skey *k = m_key_alloc();
        m_key_set(c, k);
        al_protect(k, 0);
        memset(e, 0xc7, 4096); memset(s, 0xc7, 4096);
        for (unsigned j = 0; j < len; j++) d[j] = want[j] = mix64(j * 977 + len);
        (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, want, len);
        m_crypt(dir, k, d, len);
        check_bytes(d, want, len, "%s of %u bytes", dirname_(dir), len);
        for (unsigned j = 0; j < 4096 - len; j++) {
          uint8_t *x = side ? s + len + j : e + j;
          if (*x != 0xc7) fail("%s of %u bytes wrote outside the payload, at offset %d", dirname_(dir), len, (int)(x - d));
        }
        if (memcmp(c, cwbuf, 8)) fail("the control word was modified");
        sample("%s of %u bytes with the payload %s an inaccessible page, key context read-only", dirname_(dir), len, side ? "right behind" : "right before");
        al_protect(k, 1);
        m_key_free(k);
        if (al_check()) fail("%s", al_error);
      }
}
/* parallel calls: payloads, batch array, control word and key all fenced in */
static void guard_bs(void)
{
  unsigned step = arg_i("step", 1), mstep = arg_i("mstep", 24);
  size_t asz = (B + 1) * sizeof(batch_t);
  static uint8_t *slotp[2][MAXN];
  uint8_t *ce = guard_end(8), *cs = guard_start(8), cw[8], *keep = malloc(asz);
  size_t vis = sizeof(batch_t);         /* the terminating entry */
  uint8_t *none = guard_start(0);
  guard_prot(none, 1, PROT_NONE);
  for (unsigned i = 0; i < B; i++) { slotp[0][i] = guard_end(4096) ; slotp[1][i] = guard_start(4096); }
  for (unsigned M = 0; M <= 184; M += mstep)
    for (unsigned s = 0; s < 193; s += step)
      for (int dir = 0; dir < 2; dir++)
        for (int side = 0; side < 2; side++) {
          unsigned n = s % 3 == 2 ? s % (B + 1) : B, k = s % GK;
          uint8_t *c = side ? cs : ce;
          size_t used = n * sizeof(batch_t) + vis;
          if (!case_begin("parallel %s, maximum length %u, %u packets of lengths (37*i+%u)%%193 %s inaccessible pages; batch array and key read-only", dirname_(dir), M, n, s, side ? "right behind" : "right before")) continue;
          uint8_t *ab = side ? guard_start(used) : guard_end(used);
          batch_t *a = (batch_t *)ab;
          if ((uintptr_t)ab % __alignof__(batch_t)) fail("harness: misaligned batch array");
          guard_prot(c, 8, PROT_READ | PROT_WRITE);
          geo_cw(k, c); memcpy(cw, c, 8);
          guard_prot(c, 8, PROT_READ);
          bkey *q = m_bs_key_alloc();
          m_bs_key_set(c, q);
          al_protect(q, 0);
          for (unsigned i = 0; i < n; i++) {
            unsigned l = (37 * i + s) % 193, p = (i + s) % GP;
            uint8_t *d = side ? slotp[1][i] : slotp[0][i] + 4096 - l;
            memset(slotp[side][i], 0xc7, 4096);
            memcpy(d, big_ref(p), l);
            if (l == 0) d = none;       /* nothing of an empty payload is touched */
            memset(&a[i], 0, sizeof *a);
            a[i].data = d; a[i].len = l;
          }
          memset(&a[n], 0xc5, sizeof a[n]);
          a[n].data = NULL;             /* its length means nothing */
          memcpy(keep, ab, used);
          guard_prot(ab, used, PROT_READ);
          m_bs_crypt(dir, q, a, M);
          if (memcmp(keep, ab, used)) fail("the batch array was modified");
          if (memcmp(cw, c, 8)) fail("the control word was modified");
          for (unsigned i = 0; i < n; i++) {
            unsigned l = a[i].len, p = (i + s) % GP, eff = minu(l, M);
            uint8_t *d = a[i].data, *pg = slotp[side][i];
            if (l == 0) continue;
            check_bytes(d, geo_expect(k, dir, p, eff), eff, "%s length %u slot %u maximum length %u", dirname_(dir), l, i, M);
            check_bytes(d + eff, big_ref(p) + eff, l - eff, "%s length %u slot %u maximum length %u: bytes beyond", dirname_(dir), l, i, M);
            for (uint8_t *x = pg; x < pg + 4096; x++)
              if ((x < d || x >= d + l) && *x != 0xc7) fail("%s length %u slot %u maximum length %u: wrote outside the payload, at offset %d", dirname_(dir), l, i, M, (int)(x - d));
          }
          guard_prot(ab, used, PROT_READ | PROT_WRITE);
          munmap((void *)(((uintptr_t)ab & ~4095ul) - 4096), ((((uintptr_t)ab & 4095) + used + 4095) & ~4095ul) + 8192);
          sample("parallel %s, maximum length %u, %u fenced-in packets", dirname_(dir), M, n);
          al_protect(q, 1);
          m_bs_key_free(q);
          if (al_check()) fail("%s", al_error);
        }
  free(keep);
}
/* key setup: 8 bytes read, the context written, nothing else */
static void guard_key(void)
{
  uint8_t *ce = guard_end(8), *cs = guard_start(8), cw[8];
  for (unsigned i = 0; special_cw(i, cw) && i < 600; i++)
    for (int side = 0; side < 2; side++)
      for (int bs = 0; bs < 2; bs++) {
        uint8_t *c = side ? cs : ce;
        if (!case_begin("%s key setup, structured control word %u %s an inaccessible page", bs ? "parallel" : "single-packet", i, side ? "right behind" : "right before")) continue;
        guard_prot(c, 8, PROT_READ | PROT_WRITE); memcpy(c, cw, 8); guard_prot(c, 8, PROT_READ);
        void *k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
        if (bs) m_bs_key_set(c, k); else m_key_set(c, k);
        st_checked++;
        if (memcmp(c, cw, 8)) fail("the control word was modified");
        if (al_check()) fail("%s", al_error);
        if (bs) m_bs_key_free(k); else m_key_free(k);
      }
}

/* ---- C16: documented use under a sanitizer ------------------------------------------ */
/* every buffer is a separate exact heap block, at every address offset */
static void san(void)
{
  unsigned step = arg_i("step", 1), quick = arg_i("quick", 1);
  uint8_t cw[8], *c;
  ref_key rk;
  uint8_t want[4096];
  /* single-packet: lengths x offsets */
  for (unsigned len = 0; len < 420; len += len >= 200 ? 7 : 1)
    for (unsigned off = 0; off < 8; off++) {
      if (!case_begin("single-packet calls, %u bytes, payload and control word at offset %u", len, off)) continue;
      skey *k = m_key_alloc();
      c = malloc(8 + off);
      geo_cw(len % GK, c + off);
      ref_set(&rk, c + off);
      m_key_set(c + off, k);
      for (int dir = 0; dir < 2; dir++) {
        uint8_t *d = malloc(len + off);
        for (unsigned j = 0; j < len; j++) d[off + j] = want[j] = mix64(j + 91 * len);
        (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, want, len);
        m_crypt(dir, k, d + off, len);
        check_bytes(d + off, want, len, "%s %u bytes", dirname_(dir), len);
        free(d);
      }
      free(c);
      m_key_free(k);
    }
  for (unsigned i = 0; special_cw(i, cw); i += i < 500 ? 1 : 5) {
    if (!case_begin("key setup, both flavours, structured control word %u", i)) continue;
    skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
    c = malloc(8 + (i & 7));
    memcpy(c + (i & 7), cw, 8);
    m_key_set(c + (i & 7), k); m_bs_key_set(c + (i & 7), q);
    uint8_t *d = malloc(24 + (i & 7));
    for (int j = 0; j < 24; j++) d[j + (i & 7)] = want[j] = j * i;
    ref_set(&rk, cw);
    m_crypt(ENC, k, d + (i & 7), 24);
    ref_encrypt(&rk, want, 24);
    check_bytes(d + (i & 7), want, 24, "encrypt cw %u", i);
    batch_t *a = malloc(2 * sizeof *a);
    a[0] = (batch_t){ d + (i & 7), 24 }; a[1] = (batch_t){ NULL, TERMLEN };
    m_bs_crypt(DEC, q, a, 24);
    for (int j = 0; j < 24; j++) if (d[j + (i & 7)] != (uint8_t)(j * i)) fail("decryption of the encrypted packet differs");
    free(a); free(d); free(c);
    m_key_free(k); m_bs_key_free(q);
  }
  /* longer payloads */
  for (unsigned e = 9; e <= (quick ? 17 : 22); e++)
    for (int o = -9; o <= 9; o += 6) {
      unsigned len = (1u << e) + o, off = e & 7;
      if (!case_begin("single-packet calls, 2^%u%+d bytes", e, o)) continue;
      skey *k = m_key_alloc();
      geo_cw(e % GK, cw);
      ref_set(&rk, cw);
      m_key_set(cw, k);
      for (int dir = 0; dir < 2; dir++) {
        uint8_t *d = malloc(len + off), *w = malloc(len);
        for (unsigned j = 0; j < len; j++) d[off + j] = w[j] = mix64(j + 91 * len);
        (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, w, len);
        m_crypt(dir, k, d + off, len);
        check_bytes(d + off, w, len, "%s %u bytes", dirname_(dir), len);
        free(d); free(w);
      }
      m_key_free(k);
    }
  /* parallel: every number of packets */
  for (unsigned n = 0; n <= B; n += n < 8 || n + 8 > B ? 1 : step)
    for (unsigned v = 0; v < 3; v++)
      for (int dir = 0; dir < 2; dir++) {
        unsigned k = n % GK, M = v == 0 ? 16 : v == 1 ? 0 : 32;
        if (!case_begin("parallel %s of %u packets, maximum length %u, lengths %s", dirname_(dir), n, M, v == 0 ? "16" : v == 1 ? "24" : "mixed")) continue;
        bkey *q = m_bs_key_alloc();
        c = malloc(8); geo_cw(k, c); m_bs_key_set(c, q); free(c);
        batch_t *a = malloc((n + 1) * sizeof *a);
        for (unsigned i = 0; i < n; i++) {
          unsigned l = v == 0 ? 16 : v == 1 ? 24 : (i * 5 + n) % 40;
          uint8_t *d = malloc(l);
          geo_payload((i + n) % GP, d, l);
          a[i] = (batch_t){ d, l };
        }
        a[n] = (batch_t){ NULL, TERMLEN };
        m_bs_crypt(dir, q, a, M);
        for (unsigned i = 0; i < n; i++) {
          unsigned l = a[i].len, e = l < M ? l : M;
          uint8_t w[64];
          geo_payload((i + n) % GP, w, l);
          memcpy(w, geo_expect(k, dir, (i + n) % GP, e), e);
          check_bytes(a[i].data, w, l, "packet %u", i);
          free(a[i].data);
        }
        free(a);
        m_bs_key_free(q);
      }
  /* parallel: maximum lengths x length mixtures x counts x offsets */
  for (unsigned M = 0; M <= 184; M += quick ? 23 * 8 / 4 / 8 * 8 : 8)
    for (unsigned s = 0; s < 200; s += step)
      for (int dir = 0; dir < 2; dir++) {
        unsigned n = s % 4 == 3 ? s % (B + 1) : B, k = s % GK;
        if (!case_begin("parallel %s, maximum length %u, %u packets of lengths (37*i+%u)%%200 in exact heap blocks at all offsets", dirname_(dir), M, n, s)) continue;
        bkey *q = m_bs_key_alloc();
        c = malloc(8); geo_cw(k, c); m_bs_key_set(c, q); free(c);
        batch_t *a = malloc((n + 1) * sizeof *a);
        for (unsigned i = 0; i < n; i++) {
          unsigned l = (37 * i + s) % 200, o = (i + s) % 8;
          uint8_t *d = malloc(l + o);
          memcpy(d + o, big_ref((i + s) % GP), l);
          a[i] = (batch_t){ d + o, l };
        }
        a[n] = (batch_t){ NULL, TERMLEN };
        m_bs_crypt(dir, q, a, M);
        for (unsigned i = 0; i < n; i++) {
          unsigned l = a[i].len, eff = minu(l, M), p = (i + s) % GP;
          check_bytes(a[i].data, geo_expect(k, dir, p, eff), eff, "%s length %u slot %u maximum length %u", dirname_(dir), l, i, M);
          check_bytes(a[i].data + eff, big_ref(p) + eff, l - eff, "%s length %u slot %u maximum length %u: bytes beyond", dirname_(dir), l, i, M);
          free(a[i].data - (i + s) % 8);
        }
        free(a);
        m_bs_key_free(q);
        sample("parallel %s, maximum length %u, %u packets in exact heap blocks, no sanitizer report", dirname_(dir), M, n);
      }
  drop_key();
}

const mode_t_ modes_geom[] = {
  { "mix", mix }, { "batch", batch }, { "slotpairs", slotpairs }, { "related", related }, { "twokinds", twokinds }, { "maxlen", maxlen }, { "longpkt", longpkt },
  { "guard_single", guard_single }, { "guard_bs", guard_bs }, { "guard_key", guard_key }, { "san", san },
  { NULL, NULL }
};
