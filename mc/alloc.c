/* C11: allocation, failure and release. */
#include "mc.h"

static int nsingle_req, nbs_req;      /* requests a successful allocation makes */
#define MAXLIVE 6
static struct { void *p; int bs; uint8_t cw[8]; } live[MAXLIVE];
static int nlive, base_live, serial;

enum { A_OK, A_FAIL, A_FREE, A_FREENULL };
typedef struct { unsigned char kind, bs, a; } aop;
static aop hist[16]; static int depth;

static const char *aname(aop o)
{
  static char b[80];
  const char *f = o.bs ? "dvbcsa_bs_key" : "dvbcsa_key";
  switch (o.kind) {
    case A_OK: sprintf(b, "%s_alloc", f); break;
    case A_FAIL: sprintf(b, "%s_alloc with requests %#x failing", f, o.a); break;
    case A_FREE: sprintf(b, "free live context %d", o.a); break;
    default: sprintf(b, "%s_free(NULL)", f);
  }
  return b;
}
/* the context is usable: set it and process with it */
static void check_ctx(int i, int set)
{
  static uint8_t d[4][32], w[32];
  ref_key rk;
  if (set) {
    if (live[i].bs) m_bs_key_set(live[i].cw, live[i].p); else m_key_set(live[i].cw, live[i].p);
  }
  ref_set(&rk, live[i].cw);
  for (int dir = 0; dir < 2; dir++) {
    for (int j = 0; j < 29; j++) w[j] = d[0][j] = d[1][j] = j * 9 + i + dir;
    (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, w, 29);
    if (live[i].bs) {
      batch_t b[3] = { { d[0], 29 }, { d[1], 29 }, { NULL, TERMLEN } };
      m_bs_crypt(dir, live[i].p, b, 32);
      check_bytes(d[1], w, 29, "parallel %s with live context %d, cw=%s", dirname_(dir), i, hex(live[i].cw, 8));
    } else m_crypt(dir, live[i].p, d[0], 29);
    check_bytes(d[0], w, 29, "%s with live context %d, cw=%s", dirname_(dir), i, hex(live[i].cw, 8));
  }
}
static void astep(aop o)
{
  void *p = NULL;
  int r, before = al_live();
  al_reset_fail();
  switch (o.kind) {
    case A_OK:
      p = o.bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
      for (int i = 0; i < nlive; i++) if (live[i].p == p) fail("two live contexts at the same address");
      live[nlive].p = p; live[nlive].bs = o.bs;
      for (int j = 0; j < 8; j++) live[nlive].cw[j] = mix64(serial * 8 + j);
      serial++;
      nlive++;
      check_ctx(nlive - 1, 1);
      break;
    case A_FAIL:
      al_failmask = o.a;
      r = o.bs ? l_bs_key_alloc((bkey **)&p) : l_key_alloc((skey **)&p);
      al_reset_fail();
      if (r) fail("%s %s", aname(o), outcome_name(r));
      if (!p && al_live() != before) fail("%s returned NULL but kept %d allocation(s)", aname(o), al_live() - before);
      if (p) {                          /* found other memory: a context like any other */
        live[nlive].p = p; live[nlive].bs = o.bs;
        memset(live[nlive].cw, 0x42 + serial++, 8);
        nlive++;
        check_ctx(nlive - 1, 1);
      }
      break;
    case A_FREE: {
      int i = o.a;
      if (live[i].bs) m_bs_key_free(live[i].p); else m_key_free(live[i].p);
      for (; i + 1 < nlive; i++) live[i] = live[i + 1];
      nlive--;
      break; }
    default:
      if (o.bs) m_bs_key_free(NULL); else m_key_free(NULL);
      if (al_live() != before) fail("%s changed the number of live allocations", aname(o));
  }
  if (al_check()) fail("%s: %s", aname(o), al_error);
  for (int i = 0; i < nlive; i++) check_ctx(i, 0);
}
static void free_all(void)
{
  while (nlive) astep((aop){ A_FREE, 0, nlive - 1 });
}
static void run_hist(void)
{
  char desc[600];
  size_t l = 0;
  for (int i = 0; i < depth; i++) l += snprintf(desc + l, sizeof desc - l, "%s; ", aname(hist[i]));
  if (!case_begin("%s", desc)) return;
  nlive = 0; serial = 1;
  for (int i = 0; i < depth; i++) astep(hist[i]);
  free_all();
  if (al_live() != base_live) fail("%d allocation(s) not given back after freeing every context", al_live() - base_live);
  sample("%s then everything freed: all contexts usable throughout, nothing left", desc);
}
static void rec(int d, int nl)
{
  if (d == depth) { run_hist(); return; }
  for (int bs = 0; bs < 2; bs++) {
    int req = bs ? nbs_req : nsingle_req, m;
    if (nl < MAXLIVE) { hist[d] = (aop){ A_OK, bs, 0 }; rec(d + 1, nl + 1); }
    for (m = 1; m < 1 << req && m < 8; m++) {
      hist[d] = (aop){ A_FAIL, bs, m };
      rec(d + 1, nl);
    }
    hist[d] = (aop){ A_FREENULL, bs, 0 };
    if (d == 0 || hist[d - 1].kind != A_FREENULL) rec(d + 1, nl);
  }
  for (int i = 0; i < nl; i++) { hist[d] = (aop){ A_FREE, 0, i }; rec(d + 1, nl - 1); }
}
static void allochist(void)
{
  int max = arg_i("depth", 5);
  case_begin("first allocation of each kind");
  /* one full cycle first: anything set up once and for all is not a leak */
  for (int pass = 0; pass < 2; pass++) {
    al_reset_fail();
    skey *k = m_key_alloc();
    nsingle_req = al_calls;
    al_reset_fail();
    bkey *q = m_bs_key_alloc();
    nbs_req = al_calls;
    al_reset_fail();
    if (al_find(k) == NULL && nsingle_req) stat_add("offset_contexts", 1);
    uint8_t cw[8] = { 1, 2, 3, 4 }, d[16] = { 0 };
    batch_t b[2] = { { d, 16 }, { NULL, TERMLEN } };
    m_key_set(cw, k); m_crypt(ENC, k, d, 16); m_crypt(DEC, k, d, 16);
    m_bs_key_set(cw, q); m_bs_crypt(ENC, q, b, 16); m_bs_crypt(DEC, q, b, 16);
    m_key_free(k); m_bs_key_free(q);
  }
  base_live = al_live();
  stat_add("requests_per_single_context", nsingle_req);
  stat_add("requests_per_parallel_context", nbs_req);
  if (nsingle_req > 3) nsingle_req = 3;
  if (nbs_req > 3) nbs_req = 3;
  for (depth = 1; depth <= max; depth++) rec(0, 0);
  /* addresses: the allocator may return any suitably aligned block, holding anything */
  for (unsigned sh = 0; sh < 16; sh++)
    for (int f = 0; f < 4; f++) {
      static const int fl[] = { 0, 0xff, 0x5a, -1 };
      if (!case_begin("contexts at allocation offset %u of the alignment, memory filled with %d", sh, fl[f])) continue;
      al_shift = sh; al_fill = fl[f];
      nlive = 0; serial = 3;
      for (int i = 0; i < 6; i++) astep((aop){ A_OK, i & 1, 0 });
      free_all();
      al_shift = 0; al_fill = 0xa5;
      if (al_live() != base_live) fail("%d allocation(s) not given back", al_live() - base_live);
    }
  /* many contexts at once, freed in different orders */
  for (int order = 0; order < 4; order++) {
    static void *p[256];
    static uint8_t w[24], d[24];
    ref_key rk;
    uint8_t cw[8];
    int n = arg_i("many", 200);
    if (!case_begin("%d contexts at once, order of release %d", n, order)) continue;
    for (int i = 0; i < n; i++) {
      p[i] = i & 1 ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
      for (int j = 0; j < 8; j++) cw[j] = mix64(i * 8 + j);
      if (i & 1) m_bs_key_set(cw, p[i]); else m_key_set(cw, p[i]);
    }
    for (int s = 0; s < n; s++) {
      int i = order == 0 ? s : order == 1 ? n - 1 - s : order == 2 ? (s * 7) % n : (s ^ 1) % n;
      if (!p[i]) continue;
      for (int j = 0; j < 8; j++) cw[j] = mix64(i * 8 + j);
      ref_set(&rk, cw);
      for (int j = 0; j < 24; j++) w[j] = d[j] = j * 3 + i;
      ref_encrypt(&rk, w, 24);
      if (i & 1) { batch_t b[2] = { { d, 24 }, { NULL, TERMLEN } }; m_bs_crypt(ENC, p[i], b, 24); } else m_crypt(ENC, p[i], d, 24);
      check_bytes(d, w, 24, "context %d of %d", i, n);
      if (i & 1) m_bs_key_free(p[i]); else m_key_free(p[i]);
      p[i] = NULL;
      if (al_check()) fail("%s", al_error);
    }
    for (int i = 0; i < n; i++) if (p[i]) { if (i & 1) m_bs_key_free(p[i]); else m_key_free(p[i]); }
    if (al_live() != base_live) fail("%d allocation(s) not given back", al_live() - base_live);
  }
}

/* key setup and processing with no memory at all: first call ever included */
static void nomem(void)
{
  static uint8_t buf[1024][192], d[192];
  static batch_t t[1025];
  static const unsigned ns[] = { 0, 1, 2, 5, 8, 0x1001, 0x1000 }, Ms[] = { 184, 8, 0, 96 };
  unsigned step = arg_i("step", 1);
  uint8_t cw[8];
  for (unsigned c = 0; c < GK; c++)
    for (int dir = 0; dir < 2; dir++) {
      for (unsigned len = 0; len <= 184; len += step) {
        if (!case_begin("no memory: single-packet key setup %u and %s of %u bytes", c, dirname_(dir), len)) continue;
        skey *k = m_key_alloc();
        geo_cw(c, cw);
        geo_payload(len, d, 184);
        al_failall = 1;
        m_key_set(cw, k);
        m_crypt(dir, k, d, len);
        al_failall = 0;
        check_bytes(d, geo_expect(c, dir, len, len), len, "%s of %u bytes with no memory to be had", dirname_(dir), len);
        m_key_free(k);
      }
      for (unsigned ni = 0; ni < 7; ni++)
        for (unsigned mi = 0; mi < 4; mi++)
          for (unsigned prof = 0; prof < 2; prof++) {
            unsigned n = ns[ni] & 0x1000 ? B - (ns[ni] & 15) : ns[ni], M = Ms[mi];
            if (!case_begin("no memory: parallel key setup %u and %s of %u packets, maximum length %u, profile %u", c, dirname_(dir), n, M, prof)) continue;
            bkey *q = m_bs_key_alloc();
            geo_cw(c, cw);
            for (unsigned i = 0; i < n; i++) {
              geo_payload(i % GP, buf[i], 184);
              t[i] = (batch_t){ buf[i], prof ? (i * 41 + ni) % 185 : 184 };
            }
            t[n] = (batch_t){ NULL, TERMLEN };
            al_failall = 1;
            m_bs_key_set(cw, q);
            m_bs_crypt(dir, q, t, M);
            al_failall = 0;
            for (unsigned i = 0; i < n; i++) {
              unsigned e = t[i].len < M ? t[i].len : M;
              check_bytes(buf[i], geo_expect(c, dir, i % GP, e), e, "parallel %s slot %u of %u with no memory to be had", dirname_(dir), i, n);
            }
            sample("parallel %s of %u packets while every allocation request fails", dirname_(dir), n);
            m_bs_key_free(q);
          }
    }
}
/* repeating a call does not go on taking memory: what is held after REP calls
 * is what is held after 2*REP, whichever of a call's requests fail */
#define REP 6
static void leak(void)
{
  static uint8_t buf[1024][192], d[2300];
  static batch_t t[1025];
  unsigned step = arg_i("step", 1), nstep = arg_i("nstep", 1);
  uint8_t cw[8];
  int held[2];
  geo_cw(0, cw);
  skey *k = m_key_alloc();
  bkey *q = m_bs_key_alloc();
  for (unsigned mask = 0; mask < 8; mask++)
    for (int f = 0; f < 2; f++) {
      if (!case_begin("%s key setup %d times over, requests %#x of each failing", f ? "parallel" : "single-packet", 2 * REP, mask)) continue;
      for (int i = 0; i < 2 * REP; i++) {
        al_reset_fail(); al_failmask = mask;
        if (f) m_bs_key_set(cw, q); else m_key_set(cw, k);
        if ((i + 1) % REP == 0) held[i / REP] = al_live();
      }
      al_reset_fail();
      st_checked++;
      if (held[0] != held[1]) fail("key setup: %d allocations held after %d calls, %d after %d", held[0], REP, held[1], 2 * REP);
    }
  m_key_set(cw, k); m_bs_key_set(cw, q);
  for (int dir = 0; dir < 2; dir++)
    for (unsigned mask = 0; mask < 8; mask++) {
      for (unsigned len = 0; len < 2200; len += len < 200 ? step : 401) {
        if (!case_begin("%s of %u bytes %d times over, requests %#x of each failing", dirname_(dir), len, 2 * REP, mask)) continue;
        for (int i = 0; i < 2 * REP; i++) {
          al_reset_fail(); al_failmask = mask;
          m_crypt(dir, k, d, len);
          if ((i + 1) % REP == 0) held[i / REP] = al_live();
        }
        al_reset_fail();
        st_checked++;
        if (held[0] != held[1]) fail("%d allocations held after %d calls, %d after %d", held[0], REP, held[1], 2 * REP);
      }
      for (unsigned n = 0; n <= B; n += n < 9 || n + 9 > B ? 1 : nstep)
        for (unsigned M = 0; M <= 184; M += M < 16 ? 8 : M == 16 ? 80 : 88) {
          if (!case_begin("parallel %s of %u packets, maximum length %u, %d times over, requests %#x of each failing", dirname_(dir), n, M, 2 * REP, mask)) continue;
          for (unsigned i = 0; i < n; i++) t[i] = (batch_t){ buf[i], (i * 41 + n) % 185 };
          t[n] = (batch_t){ NULL, TERMLEN };
          for (int i = 0; i < 2 * REP; i++) {
            al_reset_fail(); al_failmask = mask;
            m_bs_crypt(dir, q, t, M);
            if ((i + 1) % REP == 0) held[i / REP] = al_live();
          }
          al_reset_fail();
          st_checked++;
          if (held[0] != held[1]) fail("%d allocations held after %d calls, %d after %d", held[0], REP, held[1], 2 * REP);
          if (n && M == 184) sample("parallel %s of %u packets %d times with requests %#x failing: %d allocations held throughout", dirname_(dir), n, 2 * REP, mask, held[1]);
        }
    }
  m_key_free(k); m_bs_key_free(q);
}
const mode_t_ modes_alloc[] = { { "leak", leak }, { "allochist", allochist }, { "nomem", nomem }, { NULL, NULL } };
