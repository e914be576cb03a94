/* Content-exhaustive modes: control words and payload bytes. */
#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef void (*reffn)(const ref_key *, uint8_t *, size_t);
static reffn rf(int dir) { return dir == ENC ? ref_encrypt : ref_decrypt; }

/* every pair of payload bytes and every (control word byte, payload byte) pair */
static void single_pairs(void)
{
  unsigned step = arg_i("ustep", 1);
  uint8_t cw[8], d[184 + 16];
  for (unsigned u = 0; u < 256; u += step) {
    if (!case_begin("single-packet calls, control word %u of the pair array", u)) continue;
    skey *k = m_key_alloc();
    pair_cw(u, cw);
    m_key_set(cw, k);
    for (unsigned v = 0; v < 256; v++)
      for (int dir = 0; dir < 2; dir++) {
        memset(d + 184, 0xc7, 16);
        pair_payload(u, v, d, 184);
        m_crypt(dir, k, d, 184);
        check_bytes(d, pair_expect(dir, u, v), 184, "%s cw=%s packet (%u,%u) of 184 bytes", dirname_(dir), hex(cw, 8), u, v);
        for (int i = 184; i < 200; i++) if (d[i] != 0xc7) fail("%s of 184 bytes wrote behind the payload", dirname_(dir));
      }
    sample("cw=%s: 256 payloads of 184 bytes encrypted and decrypted, all equal to the reference", hex(cw, 8));
    m_key_free(k);
  }
}

/* every triple of values over the 8 control word bytes and first 16 payload bytes */
static void single_oa3(void)
{
  unsigned chunk = 8192, n = arg_i("words", 1 << 24), len = arg_i("len", 16);
  uint8_t w[64], a[64], b[64];
  ref_key rk;
  for (unsigned c = 0; c < n; c += chunk) {
    if (!case_begin("single-packet calls, words %u.. of the triple array, %u byte payloads", c, len)) continue;
    skey *k = m_key_alloc();
    for (unsigned i = c; i < c + chunk; i++) {
      oa3(i, w, 8 + len);
      ref_set(&rk, w);
      m_key_set(w, k);
      for (int dir = 0; dir < 2; dir++) {
        memcpy(a, w + 8, len); memcpy(b, w + 8, len);
        rf(dir)(&rk, a, len);
        m_crypt(dir, k, b, len);
        check_bytes(b, a, len, "%s cw=%s payload=%s", dirname_(dir), hex(w, 8), hex(w + 8, len));
      }
    }
    m_key_free(k);
  }
}

/* structured payloads (constant, periodic, one bit off) under structured control words */
static void single_special(void)
{
  static const unsigned lens[] = { 8, 9, 15, 16, 24, 31, 184 };
  uint8_t cw[8], p[184], a[184], b[184];
  ref_key rk;
  unsigned ncw = arg_i("ncw", 24), nl = arg_i("nlens", 7);
  for (unsigned c = 0; c < ncw; c++)
    for (unsigned l = 0; l < nl; l++) {
      unsigned len = lens[l];
      if (!case_begin("single-packet calls, structured payloads of %u bytes under structured control word %u", len, c)) continue;
      skey *k = m_key_alloc();
      if (!special_cw(c < 16 ? c : 16 + (c - 16) * 17 % 384, cw)) fail("no control word");
      ref_set(&rk, cw);
      m_key_set(cw, k);
      for (unsigned i = 0; special_payload(i, p, len); i++)
        for (int dir = 0; dir < 2; dir++) {
          memcpy(a, p, len); memcpy(b, p, len);
          rf(dir)(&rk, a, len);
          m_crypt(dir, k, b, len);
          check_bytes(b, a, len, "%s cw=%s payload=%s", dirname_(dir), hex(cw, 8), hex(p, len));
        }
      m_key_free(k);
    }
}

/* two bits different from a constant background, over control word and first
 * 16 payload bytes: all 18336 pairs */
static void single_bits2(void)
{
  uint8_t w[24], a[16], b[16];
  ref_key rk;
  for (int bg = 0; bg < 2; bg++)
    for (unsigned x = 0; x < 192; x++) {
      if (!case_begin("single-packet calls, background %02x, bit %u and every other bit flipped", bg ? 255 : 0, x)) continue;
      skey *k = m_key_alloc();
      for (unsigned y = x; y < 192; y++) {
        memset(w, bg ? 255 : 0, 24);
        w[x >> 3] ^= 1 << (x & 7);
        if (y != x) w[y >> 3] ^= 1 << (y & 7);
        ref_set(&rk, w);
        m_key_set(w, k);
        for (int dir = 0; dir < 2; dir++) {
          memcpy(a, w + 8, 16); memcpy(b, w + 8, 16);
          rf(dir)(&rk, a, 16);
          m_crypt(dir, k, b, 16);
          check_bytes(b, a, 16, "%s cw=%s payload=%s", dirname_(dir), hex(w, 8), hex(w + 8, 16));
        }
      }
      m_key_free(k);
    }
}

/* control words: what=special|oa2|oa3|flip, flavour=single|bs */
static int cw_by(const char *what, unsigned i, uint8_t cw[8])
{
  if (!strcmp(what, "special")) return special_cw(i, cw);
  if (!strcmp(what, "oa2")) { if (i >= 65536) return 0; oa2(i, cw, 8); return 1; }
  if (i >= 1u << 24) return 0;
  oa3(i, cw, 8);
  return 1;
}
static void keys(void)
{
  const char *what = arg_s("what", "special");
  int bs = !strcmp(arg_s("flavour", "single"), "bs");
  unsigned chunk = arg_i("chunk", 512), step = arg_i("step", 1), limit = arg_i("limit", 1 << 30);
  unsigned len = arg_i("len", 16), i, c;
  static const uint8_t pay[32] = { 0x3c,0x91,0x5e,0xf0,0x07,0xaa,0x62,0xd8, 0x19,0xe3,0x4b,0x8c,0x70,0x05,0xb6,0x2f,
                                   0x8e,0x44,0x1d,0xc9,0x53,0xf7,0x6a,0x30, 0xd2,0x0b,0x97,0x7e,0xa1,0x58,0xec,0x26 };
  uint8_t cw[8], a[32], b[64];
  ref_key rk;
  for (c = 0; c < limit && cw_by(what, c, cw); c += chunk) {
    skey *k = NULL; bkey *q = NULL;
    if (!case_begin("%s key contexts, control words %u.. of '%s'", bs ? "parallel" : "single-packet", c, what)) continue;
    if (bs) q = m_bs_key_alloc(); else k = m_key_alloc();
    for (i = c; i < c + chunk && cw_by(what, i, cw); i += step) {
      ref_set(&rk, cw);
      if (bs) m_bs_key_set(cw, q); else m_key_set(cw, k);
      for (int dir = 0; dir < 2; dir++) {
        memcpy(a, pay, len); memcpy(b, pay, len);
        rf(dir)(&rk, a, len);
        if (bs) {
          batch_t t[3] = { { b, len }, { NULL, TERMLEN } };
          m_bs_crypt(dir, q, t, (len + 7) & ~7u);
        } else m_crypt(dir, k, b, len);
        check_bytes(b, a, len, "%s after key setup with cw=%s (payload %s)", dirname_(dir), hex(cw, 8), hex(pay, len));
      }
    }
    if (bs) m_bs_key_free(q); else m_key_free(k);
  }
}
/* words differing in one bit are different keys, whatever the reference says */
static void key_flip(void)
{
  uint8_t cw[8], out[65][24];
  for (unsigned base = 0; base < 64; base++)
    for (int bs = 0; bs < 2; bs++) {
      if (!case_begin("%s contexts, base control word %u and its 64 neighbours", bs ? "parallel" : "single-packet", base)) continue;
      skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
      for (int b = 0; b < 65; b++) {
        if (base < 16) special_cw(base, cw); else oa2(base * 1021, cw, 8);
        if (b < 64) cw[b >> 3] ^= 1 << (b & 7);
        for (int i = 0; i < 24; i++) out[b][i] = i * 11;
        if (bs) { batch_t t[2] = { { out[b], 24 }, { NULL, TERMLEN } }; m_bs_key_set(cw, q); m_bs_crypt(ENC, q, t, 24); }
        else { m_key_set(cw, k); m_crypt(ENC, k, out[b], 24); }
        for (int c = 0; c < b; c++, st_checked++)
          if (!memcmp(out[b], out[c], 24)) fail("flipping bit %d or bit %d of control word %s gives the same key", b, c, hex(cw, 8));
      }
      m_key_free(k); m_bs_key_free(q);
    }
}

/* the pair array through the parallel calls */
static void bs_pairs(void)
{
  unsigned step = arg_i("ustep", 1);
  static uint8_t buf[4096][192];
  static batch_t t[4097];
  uint8_t cw[8];
  for (unsigned u = 0; u < 256; u += step)
    for (int dir = 0; dir < 2; dir++) {
      if (!case_begin("parallel %s, control word %u of the pair array, 256 packets", dirname_(dir), u)) continue;
      bkey *q = m_bs_key_alloc();
      pair_cw(u, cw);
      m_bs_key_set(cw, q);
      for (unsigned v0 = 0; v0 < 256; v0 += B) {
        unsigned n = 256 - v0 < B ? 256 - v0 : B;
        for (unsigned i = 0; i < n; i++) {
          pair_payload(u, v0 + i, buf[i], 184);
          t[i] = (batch_t){ buf[i], 184 };
        }
        t[n] = (batch_t){ NULL, TERMLEN };
        m_bs_crypt(dir, q, t, 184);
        for (unsigned i = 0; i < n; i++)
          check_bytes(buf[i], pair_expect(dir, u, v0 + i), 184, "%s cw=%s packet (%u,%u) in slot %u of %u",
                      dirname_(dir), hex(cw, 8), u, v0 + i, i, n);
      }
      sample("parallel %s cw=%s: 256 payloads of 184 bytes in batches of %u", dirname_(dir), hex(cw, 8), B);
      m_bs_key_free(q);
    }
}

/* every number written in the library's sources, as part of the control word and
 * of the payload, and as a length */
static uint64_t dictv[512];
static int ndict;
static void dict_load(void)
{
  FILE *f = fopen(arg_s("dict", "/nonexistent"), "r");
  unsigned long long v;
  if (!f) { fprintf(stderr, "no dictionary\n"); _exit(9); }
  while (ndict < 512 && fscanf(f, "%llu", &v) == 1) dictv[ndict++] = v;
  fclose(f);
}
static void dict_check(skey *k, bkey *q, const uint8_t *cw, const uint8_t *pay, unsigned len)
{
  uint8_t a[192], b[192], c[192];
  ref_key rk;
  ref_set(&rk, cw);
  for (int dir = 0; dir < 2; dir++) {
    batch_t t[2] = { { c, len }, { NULL, TERMLEN } };
    memcpy(a, pay, 192); memcpy(b, pay, 192); memcpy(c, pay, 192);
    rf(dir)(&rk, a, len);
    m_crypt(dir, k, b, len);
    check_bytes(b, a, 192, "single-packet %s cw=%s %u bytes, payload %s..", dirname_(dir), hex(cw, 8), len, hex(pay, 32));
    m_bs_crypt(dir, q, t, (len + 7) & ~7u);
    check_bytes(c, a, 192, "parallel %s cw=%s %u bytes, payload %s..", dirname_(dir), hex(cw, 8), len, hex(pay, 32));
  }
}
static void dict(void)
{
  uint8_t cw[8], pay[192], v[8];
  unsigned nbg = arg_i("nbg", 3);
  dict_load();
  for (int i = 0; i < ndict; i++)
    for (unsigned w = 1; w <= 8; w *= 2)
      for (int be = 0; be < (w > 1 ? 2 : 1); be++) {
        if (dictv[i] < 256 || (w < 8 && dictv[i] >> 8 * w)) continue; /* single bytes: see the pair array */
        if (!case_begin("the number %#llx from the sources, %u bytes wide, %s first, in control word and payload", (unsigned long long)dictv[i], w, be ? "most significant" : "least significant")) continue;
        for (unsigned j = 0; j < w; j++) v[be ? w - 1 - j : j] = dictv[i] >> 8 * j;
        skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
        for (unsigned bg = 0; bg < nbg; bg++)
          for (unsigned o = 0; o + w <= 8; o++) {
            geo_cw(bg, cw); memcpy(cw + o, v, w);
            m_key_set(cw, k); m_bs_key_set(cw, q);
            geo_payload(o + 8 * bg, pay, 192);
            dict_check(k, q, cw, pay, 24 + o);
            memcpy(pay + (o & 7), v, w);
            dict_check(k, q, cw, pay, 24 + o);
          }
        for (unsigned bg = 0; bg < (nbg + 1) / 2; bg++) {
          geo_cw(bg, cw); m_key_set(cw, k); m_bs_key_set(cw, q);
          for (unsigned o = 0; o + w <= 184; o += o < 32 || o > 168 ? 1 : 8) {
            geo_payload(o + bg, pay, 192);
            memcpy(pay + o, v, w);
            dict_check(k, q, cw, pay, 184);
            if (o < 16) dict_check(k, q, cw, pay, 29);
          }
        }
        m_key_free(k); m_bs_key_free(q);
      }
}

/* values between the stages: block sequences with a pattern (blocks that agree in
 * a set of byte positions, with each other, with a constant or with the control
 * word) placed at each point of the data flow, by working the payload back from
 * there; through the single-packet call and in full batches through the parallel one */
enum { V_IN, V_POST, V_DOUT, V_EIN, V_EOUT, V_OUT, NVIEW };
static const char *const viewname[] = { "in the payload", "between stream and block stage", "behind the block decryptions", "before the block encryptions",
                                        "behind the block encryptions", "in the result" };
#define VB 4                    /* blocks */
static void view_payload(int view, int dir, const ref_key *k, uint8_t *s, unsigned len)
{
  uint8_t x[VB][8], e[8];
  ref_stream st;
  if (view == V_IN) return;
  if (view == V_OUT) { rf(!dir)(k, s, len); return; }
  if (view == V_POST || view == V_DOUT) {
    if (view == V_DOUT) for (int i = 0; i < VB; i++) { ref_block_encrypt(k, s + 8 * i, e); memcpy(s + 8 * i, e, 8); }
    ref_stream_init(&st, k, s);
    ref_stream_xor(&st, s + 8, len - 8);
    return;
  }
  for (int i = 0; i < VB; i++)
    if (view == V_EOUT) ref_block_decrypt(k, s + 8 * i, x[i]); else memcpy(x[i], s + 8 * i, 8);
  for (int i = 0; i < VB; i++) {
    memcpy(s + 8 * i, x[i], 8);
    if (i == VB - 1) break;
    ref_block_encrypt(k, x[i + 1], e);
    for (int b = 0; b < 8; b++) s[8 * i + b] ^= e[b];
  }
}
static int view_pattern(unsigned n, const uint8_t *cw, uint8_t *s, char *d, size_t dmax)
{
  unsigned m = n % 255 + 1, f = n / 255, i, j = 0;
  if (f >= 6 + 12 + 1) return 0;
  if (f < 6) {
    static const uint8_t pi[] = { 0, 0, 0, 1, 1, 2 }, pj[] = { 1, 2, 3, 2, 3, 3 };
    i = pi[f]; j = pj[f];
    for (int b = 0; b < 8; b++) if (m >> b & 1) s[8 * j + b] = s[8 * i + b];
    snprintf(d, dmax, "bytes %#x of block %u as in block %u", m, j, i);
  } else if (f < 18) {
    i = (f - 6) / 3; j = (f - 6) % 3;
    for (int b = 0; b < 8; b++) if (m >> b & 1) s[8 * i + b] = j == 0 ? 0 : j == 1 ? 0xff : cw[b];
    snprintf(d, dmax, "bytes %#x of block %u %s", m, i, j == 0 ? "00" : j == 1 ? "ff" : "as in the control word");
  } else {
    for (i = 1; i < VB; i++) for (int b = 0; b < 8; b++) if (m >> b & 1) s[8 * i + b] = s[b];
    snprintf(d, dmax, "bytes %#x the same in all blocks", m);
  }
  return 1;
}
static void views(void)
{
  unsigned nkeys = arg_i("nkeys", 3), step = arg_i("pstep", 1), len = 8 * VB + 3;
  int bs = arg_i("bs", 1), single = arg_i("single", 1);
  static uint8_t in[1024][48], want[1024][48], buf[1024][48];
  static char desc[1024][64];
  static batch_t t[1025];
  uint8_t cw[8];
  ref_key rk;
  for (unsigned kk = 0; kk < nkeys; kk++)
    for (unsigned base = 0; base < 3; base++)
      for (int view = 0; view < NVIEW; view++)
        for (int dir = 0; dir < 2; dir++) {
          if ((view == V_POST || view == V_DOUT) && dir == ENC) continue;
          if ((view == V_EIN || view == V_EOUT) && dir == DEC) continue;
          if (!case_begin("%s, key %u, base %u: patterns %s", dirname_(dir), kk, base, viewname[view])) continue;
          if (kk == 1) memset(cw, 0, 8); else if (kk == 2) memset(cw, 0xff, 8); else geo_cw(kk % GK, cw), cw[5] ^= kk;
          ref_set(&rk, cw);
          skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
          m_key_set(cw, k); m_bs_key_set(cw, q);
          unsigned cnt = 0;
          for (unsigned n = base % step;; n += step) {
            uint8_t *s = in[cnt];
            for (int b = 0; b < 48; b++) s[b] = base == 2 ? 0 : (uint8_t)(mix64(b * 977 + base + mc_seed * 131) >> 24);
            int more;
            if (base == 1) { /* all blocks the same but for one */
              static const uint8_t dl[] = { 1, 0x80, 0xff, 0x10, 0x5a };
              unsigned m = n % 255 + 1, f = n / 255;
              for (int b = 8; b < 32; b++) s[b] = s[b & 7];
              more = f < 4 * 5;
              if (more) for (int b = 0; b < 8; b++) if (m >> b & 1) s[8 * (f % 4) + b] ^= dl[f / 4];
              snprintf(desc[cnt], sizeof desc[cnt], "equal blocks, but bytes %#x of block %u", m, f % 4);
            } else more = view_pattern(n, cw, s, desc[cnt], sizeof desc[cnt]);
            if (more) {
              view_payload(view, dir, &rk, s, len);
              memcpy(want[cnt], s, 48);
              rf(dir)(&rk, want[cnt], len);
              if (single) {
                uint8_t o[48];
                memcpy(o, s, 48);
                m_crypt(dir, k, o, len);
                check_bytes(o, want[cnt], 48, "single-packet %s cw=%s, %s %s: payload %s", dirname_(dir), hex(cw, 8), desc[cnt], viewname[view], hex(s, len));
              }
              cnt++;
            }
            if (bs && (cnt == B || (!more && cnt))) {
              for (unsigned i = 0; i < cnt; i++) { memcpy(buf[i], in[i], 48); t[i] = (batch_t){ buf[i], len }; }
              t[cnt] = (batch_t){ NULL, TERMLEN };
              m_bs_crypt(dir, q, t, 40);
              for (unsigned i = 0; i < cnt; i++)
                check_bytes(buf[i], want[i], 48, "parallel %s cw=%s, slot %u of %u, %s %s: payload %s", dirname_(dir), hex(cw, 8), i, cnt, desc[i], viewname[view], hex(in[i], len));
            }
            if (cnt == B) cnt = 0;
            if (!more) break;
          }
          m_key_free(k); m_bs_key_free(q);
        }
}

/* payload lengths of the single-packet calls */
static int len_by(const char *what, unsigned i, uint64_t *len)
{
  unsigned dense = arg_i("dense", 2200);
  if (i < dense) { *len = i; return 1; }
  i -= dense;
  unsigned lo = 11, hi = arg_i("maxpow", 20);
  if (i < (hi - lo + 1) * 19) { *len = (1ull << (lo + i / 19)) + i % 19 - 9; return 1; }
  i -= (hi - lo + 1) * 19;
  if (i < 24) { *len = 1000 * (i + 3) + i; if (*len >= 1ull << hi) *len = i; return 1; }
  i -= 24;
  if (!ndict && i == 0) dict_load();
  if (i < 3u * ndict) { *len = dictv[i / 3] + i % 3 - 1; if (*len > 1ull << hi) *len = 0; return 1; }
  i -= 3 * ndict;
  /* once to four times a number from the sources, and up to nine bytes (the first block and a byte) off */
  if (i < 4u * 19 * ndict) {
    uint64_t v = dictv[i / 76];
    *len = v < 128 || v > 1ull << (hi < 17 ? hi : 17) ? 0 : v * (1 + i / 19 % 4) + i % 19 - 9;
    if (*len < dense || *len > 1ull << hi) *len = 0;
    return 1;
  }
  (void)what;
  return 0;
}
static void lens_single(void)
{
  uint64_t len, max = (1ull << arg_i("maxpow", 20)) + 64;
  uint8_t *a, *b, cw[8];
  ref_key rk;
  a = malloc(max + 64); b = malloc(max + 64);
  for (unsigned i = 0; len_by("", i, &len); i++)
    for (int dir = 0; dir < 2; dir++) {
      unsigned ci = (i + dir) % GK;
      if (!len && i) continue;
      if (!case_begin("single-packet %s of %llu bytes", dirname_(dir), (unsigned long long)len)) continue;
      skey *k = m_key_alloc();
      geo_cw(ci, cw);
      ref_set(&rk, cw); m_key_set(cw, k);
      for (uint64_t j = 0; j < len + 32; j += 8) { uint64_t r = mix64(j * 31 + i); memcpy(a + j, &r, 8); }
      memcpy(b, a, len + 32);
      rf(dir)(&rk, a, len);
      m_crypt(dir, k, b, len);
      check_bytes(b, a, len + 32, "%s of %llu bytes, cw=%s", dirname_(dir), (unsigned long long)len, hex(cw, 8));
      m_key_free(k);
    }
}

/* lengths around and beyond 2^31.  The reference work is spread over processes:
 * the keystream depends on the first block only and is computed while the
 * library runs; the block layer is checked in pieces (decrypting a block needs
 * only its successor).  Encryption starts from chosen chained blocks x_i, with
 * the plaintext p_i = D(x_i) ^ x_{i+1} computed from them. */
#define WORKERS 6
static uint8_t *big(uint64_t n)
{
  uint8_t *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
  return p;
}
static struct { uint64_t bad[WORKERS]; } *verdict;
static void spread(uint64_t n, void (*f)(uint64_t from, uint64_t to, int w))
{
  pid_t pid[WORKERS];
  int st;
  fflush(report);
  mc_wall_off = 1;
  for (int w = 0; w < WORKERS; w++)
    if ((pid[w] = fork()) == 0) { f(n * w / WORKERS, n * (w + 1) / WORKERS, w); _exit(0); }
  for (int w = 0; w < WORKERS; w++)
    if (waitpid(pid[w], &st, 0) < 0 || st) { fprintf(stderr, "worker died\n"); _exit(9); }
  mc_wall_off = 0;
}
static uint8_t *h_c, *h_ks;
static uint64_t h_nb;
static ref_key h_rk;
static void h_block(uint64_t i, uint8_t x[8]) { uint64_t r = mix64(i); memcpy(x, &r, 8); }
static void fill_plain(uint64_t from, uint64_t to, int w)
{
  (void)w;
  for (uint64_t i = from; i < to; i++) {
    uint8_t x[8], y[8], *p = h_c + 8 * i;
    h_block(i, x);
    ref_block_decrypt(&h_rk, x, p);
    if (i + 1 < h_nb) { h_block(i + 1, y); for (int j = 0; j < 8; j++) p[j] ^= y[j]; }
  }
}
static void fill_cipher(uint64_t from, uint64_t to, int w) { (void)w; for (uint64_t i = from; i < to; i++) h_block(i, h_c + 8 * i); }
static void check_cipher(uint64_t from, uint64_t to, int w)
{
  for (uint64_t i = from; i < to; i++) {
    uint8_t x[8];
    h_block(i, x);
    if (i) for (int j = 0; j < 8; j++) x[j] ^= h_ks[8 * (i - 1) + j];
    if (memcmp(x, h_c + 8 * i, 8)) { verdict->bad[w] = i + 1; return; }
  }
}
static void check_plain(uint64_t from, uint64_t to, int w)
{
  for (uint64_t i = from; i < to; i++) {
    uint8_t x[8], y[8], p[8];
    h_block(i, x);
    if (i) for (int j = 0; j < 8; j++) x[j] ^= h_ks[8 * (i - 1) + j];
    ref_block_decrypt(&h_rk, x, p);
    if (i + 1 < h_nb) { h_block(i + 1, y); for (int j = 0; j < 8; j++) p[j] ^= y[j] ^ h_ks[8 * i + j]; }
    if (memcmp(p, h_c + 8 * i, 8)) { verdict->bad[w] = i + 1; return; }
  }
}
static void lens_huge(void)
{
  uint64_t len = arg_i("hugelen", (1ll << 31) + 24);
  int dir = !strcmp(arg_s("dir", "enc"), "enc") ? ENC : DEC, st;
  uint8_t cw[8], iv[8];
  pid_t kp;
  if (!case_begin("single-packet %s of %llu bytes", dirname_(dir), (unsigned long long)len)) return;
  h_nb = len / 8;
  h_c = big(len + 4096); h_ks = big(len + 4096); verdict = (void *)big(4096);
  geo_cw(0, cw);
  ref_set(&h_rk, cw);
  h_block(0, iv);
  fflush(report);
  if ((kp = fork()) == 0) {
    ref_stream rs;
    ref_stream_init(&rs, &h_rk, iv);
    ref_stream slow = rs;
    uint8_t *t = calloc(1, 1 << 22);
    ref_stream_xor_fast(&rs, h_ks, len - 8);
    ref_stream_xor(&slow, t, 1 << 22);         /* (and the quick model against the plain one) */
    if (memcmp(t, h_ks, 1 << 22)) _exit(9);
    _exit(0);
  }
  spread(h_nb, dir == ENC ? fill_plain : fill_cipher);
  for (uint64_t j = h_nb * 8; j < len + 64; j++) h_c[j] = 0x96;
  skey *k = m_key_alloc();
  m_key_set(cw, k);
  m_crypt(dir, k, h_c, len);
  mc_wall_off = 1;
  if (waitpid(kp, &st, 0) < 0 || st) { fprintf(stderr, "keystream process died\n"); _exit(9); }
  mc_wall_off = 0;
  spread(h_nb, dir == ENC ? check_cipher : check_plain);
  for (int w = 0; w < WORKERS; w++)
    if (verdict->bad[w]) fail("%s of %llu bytes: block %llu is wrong", dirname_(dir), (unsigned long long)len, (unsigned long long)verdict->bad[w] - 1);
  for (uint64_t j = h_nb * 8; j < len; j++)
    if (h_c[j] != (0x96 ^ h_ks[j - 8])) fail("%s of %llu bytes: trailing byte %u is wrong", dirname_(dir), (unsigned long long)len, (unsigned)(j & 7));
  for (uint64_t j = len; j < len + 64; j++) if (h_c[j] != 0x96) fail("%s of %llu bytes wrote behind the payload", dirname_(dir), (unsigned long long)len);
  st_checked += h_nb;
  sample("%s of %llu bytes: every block equal to the reference", dirname_(dir), (unsigned long long)len);
  m_key_free(k);
  munmap(h_c, len + 4096); munmap(h_ks, len + 4096);
}

/* very long payloads in a build that stops at undefined behaviour; results are C07's matter */
static void san_huge(void)
{
  uint64_t len = arg_i("hugelen", (1ll << 31) + 27);
  int dir = !strcmp(arg_s("dir", "enc"), "enc") ? ENC : DEC;
  uint8_t cw[8], *d;
  if (!case_begin("single-packet %s of %llu bytes", dirname_(dir), (unsigned long long)len)) return;
  geo_cw(0, cw);
  d = big(len + 4096);
  for (uint64_t j = 0; j < 4096; j++) d[j] = mix64(j);
  skey *k = m_key_alloc();
  m_key_set(cw, k);
  m_crypt(dir, k, d, len);
  st_checked++;
  m_key_free(k);
  munmap(d, len + 4096);
  sample("%s of %llu bytes without undefined behaviour", dirname_(dir), (unsigned long long)len);
}

/* the library's chaining code over stand-in primitives (stubs.c): the same
 * algorithm structure at lengths the real ciphers are too slow for */
#include "stubfn.h"
static uint64_t s_plain(uint64_t i) { return (i + 1) * 0xd1342543de82ef95ull ^ i >> 11; }
static uint64_t s_word(const uint8_t *d, uint64_t i) { uint64_t w; memcpy(&w, d + 8 * i, 8); return w; }
/* fill d, run, compare; returns 0 or 1 + number of the first wrong byte */
static uint64_t stub_run(const skey *k, int dir, uint8_t *d, uint64_t len)
{
  uint64_t nb = len / 8, iv, w;
  unsigned t = len & 7;
  for (uint64_t i = 0; i < nb; i++) { w = s_plain(i); memcpy(d + 8 * i, &w, 8); }
  memset(d + 8 * nb, 0x96, t + 64);
  if (l_crypt(dir, k, d, len)) return ~0ull;
  for (unsigned j = 0; j < 64; j++) if (d[len + j] != 0x96) return 1 + len + j;
  if (nb == 0) { for (unsigned j = 0; j < t; j++) if (d[j] != 0x96) return 1 + j; return 0; }
  if (dir == ENC) {
    /* block j: the encrypted chain value c[j] = enc(p[j] ^ c[j+1]); then the
     * stream seeded by c[0]; walk backwards with c only */
    uint64_t c = 0, bad = 0;
    iv = s_word(d, 0);
    for (uint64_t j = nb; j-- > 0;) {
      c = stub_enc(s_plain(j) ^ c);
      w = j ? s_word(d, j) ^ stub_ks(iv, j - 1) : s_word(d, 0);
      if (w != c) bad = 1 + 8 * j;
    }
    if (bad) return bad;
  } else {
    iv = s_plain(0);
    for (uint64_t j = 0; j < nb; j++) {
      uint64_t c = j ? s_plain(j) ^ stub_ks(iv, j - 1) : iv, n = j + 1 < nb ? s_plain(j + 1) ^ stub_ks(iv, j) : 0;
      if (s_word(d, j) != (stub_dec(c) ^ n)) return 1 + 8 * j;
    }
  }
  w = stub_ks(iv, nb - 1);
  for (unsigned j = 0; j < t; j++) if (d[8 * nb + j] != (0x96 ^ ((uint8_t *)&w)[j])) return 1 + 8 * nb + j;
  return 0;
}
static void lens_stub(void)
{
  uint64_t top = 1ull << 32, all = arg_i("all", 0), few = arg_i("few", 0);
  uint8_t cw[8], *d;
  skey *k;
  geo_cw(0, cw);
  k = m_key_alloc();
  m_key_set(cw, k);
  d = big(top + 4096);
  for (unsigned l = 0; l < 400; l++)
    for (int dir = 0; dir < 2; dir++)
      if (stub_run(k, dir, d, l)) { stat_add("standins_not_applicable", 1); return; }
  for (int p = 31; p <= 32; p++)
    for (int o = -24; o <= 24; o++)
      for (int dir = 0; dir < 2; dir++) {
        uint64_t len = (1ull << p) + o, bad;
        if (len >= top) continue;
        if (few && !(p == 31 ? o == 8 : o == -1)) continue;
        if (!all && p == 31 && o != -1 && o != 0 && o != 8 && o != 15) continue;
        if (!all && p == 32 && o != -1 && o != -7 && o != -8 && o != -9 && o != -16) continue;
        if (!case_begin("chaining of %s over stand-in ciphers, %llu bytes", dirname_(dir), (unsigned long long)len)) continue;
        bad = stub_run(k, dir, d, len);
        if (bad) fail("%s of %llu bytes: byte %llu is wrong (ciphers replaced by stand-ins)", dirname_(dir), (unsigned long long)len, (unsigned long long)bad - 1);
        st_checked += len / 8;
        sample("%s of %llu bytes over stand-in ciphers: every block chained right", dirname_(dir), (unsigned long long)len);
      }
  munmap(d, top + 4096);
}

/* there and back, in all combinations of flavours */
static void roundtrip(void)
{
  static uint8_t buf[4096][192], orig[4096][192];
  static batch_t t[4097];
  const char *what = arg_s("what", "len");
  unsigned step = arg_i("step", 1);
  uint8_t cw[8];
  skey *k; bkey *q;
  if (!strcmp(what, "content")) {
    for (unsigned u = 0; u < 256; u += step)
      for (int first = 0; first < 2; first++)
        for (int comb = 0; comb < 4; comb++) {
          if (!case_begin("cw %u of the pair array, 256 packets: %s %s, then back %s", u, comb & 1 ? "parallel" : "single", dirname_(first), comb & 2 ? "parallel" : "single")) continue;
          k = m_key_alloc(); q = m_bs_key_alloc();
          pair_cw(u, cw); m_key_set(cw, k); m_bs_key_set(cw, q);
          for (unsigned v0 = 0; v0 < 256; v0 += B) {
            unsigned n = 256 - v0 < B ? 256 - v0 : B;
            for (unsigned i = 0; i < n; i++) {
              pair_payload(u, v0 + i, orig[i], 184);
              memcpy(buf[i], orig[i], 184);
              t[i] = (batch_t){ buf[i], 184 };
            }
            t[n] = (batch_t){ NULL, TERMLEN };
            for (int pass = 0; pass < 2; pass++) {
              int dir = pass ? !first : first;
              if (comb >> pass & 1) m_bs_crypt(dir, q, t, 184);
              else for (unsigned i = 0; i < n; i++) m_crypt(dir, k, buf[i], 184);
            }
            for (unsigned i = 0; i < n; i++)
              check_bytes(buf[i], orig[i], 184, "cw=%s packet (%u,%u) slot %u: %s %s then %s %s does not give the original", hex(cw, 8), u, v0 + i, i,
                          comb & 1 ? "parallel" : "single", dirname_(first), comb & 2 ? "parallel" : "single", dirname_(!first));
          }
          m_key_free(k); m_bs_key_free(q);
        }
    return;
  }
  if (!strcmp(what, "single")) {        /* lengths beyond what the parallel calls take */
    unsigned max = arg_i("max", 1100);
    static uint8_t a[70000], b[70000];
    for (unsigned len = 0; len < max + 8; len++)
      for (int first = 0; first < 2; first++) {
        unsigned l = len < max ? len : 65536 + len - max - 4;
        if (!case_begin("single-packet %s of %u bytes and back", dirname_(first), l)) continue;
        k = m_key_alloc();
        geo_cw(len % GK, cw); m_key_set(cw, k);
        for (unsigned j = 0; j < l + 8; j++) a[j] = mix64(j + l * 7919);
        memcpy(b, a, l + 8);
        m_crypt(first, k, b, l);
        if (l >= 8 && !memcmp(a, b, l)) fail("%s of %u bytes changed nothing", dirname_(first), l);
        m_crypt(!first, k, b, l);
        check_bytes(b, a, l + 8, "cw=%s %u bytes: %s then %s does not give the original", hex(cw, 8), l, dirname_(first), dirname_(!first));
        m_key_free(k);
      }
    return;
  }
  /* every length 0..184 (in every slot over the shifts) x every maximum length x combination */
  for (unsigned M = 0; M <= 184; M += 8)
    for (unsigned s = 0; s < 185; s += step)
      for (int first = 0; first < 2; first++)
        for (int comb = 0; comb < 4; comb++) {
          if (comb == 0 && M != 184) continue;
          if (!case_begin("maximum length %u, lengths (i*67+%u)%%185: %s %s, then back %s", M, s, comb & 1 ? "parallel" : "single", dirname_(first), comb & 2 ? "parallel" : "single")) continue;
          k = m_key_alloc(); q = m_bs_key_alloc();
          geo_cw((s + M / 8) % GK, cw); m_key_set(cw, k); m_bs_key_set(cw, q);
          for (unsigned i = 0; i < B; i++) {
            unsigned l = (i * 67 + s) % 185;
            if (comb == 1 || comb == 2) l = l > M ? M : l;      /* mixed: within the common limit */
            memset(orig[i], 0xc3, 192);
            geo_payload(i % GP, orig[i], l);
            memcpy(buf[i], orig[i], 192);
            t[i] = (batch_t){ buf[i], l };
          }
          t[B] = (batch_t){ NULL, TERMLEN };
          for (int pass = 0; pass < 2; pass++) {
            int dir = pass ? !first : first;
            if (comb >> pass & 1) m_bs_crypt(dir, q, t, M);
            else for (unsigned i = 0; i < B; i++) m_crypt(dir, k, buf[i], t[i].len);
          }
          for (unsigned i = 0; i < B; i++)
            check_bytes(buf[i], orig[i], 192, "cw=%s slot %u length %u maxlen %u: %s %s then %s %s does not give the original", hex(cw, 8), i, t[i].len, M,
                        comb & 1 ? "parallel" : "single", dirname_(first), comb & 2 ? "parallel" : "single", dirname_(!first));
          m_key_free(k); m_bs_key_free(q);
        }
}

static void batchsize(void)
{
  unsigned want = arg_i("want", 0);
  if (!case_begin("dvbcsa_bs_batch_size()")) return;
  for (int i = 0; i < 3; i++) {
    unsigned n;
    st_trans++; st_checked++;
    int r = LIBCALL_(n = lib.bs_batch_size());
    if (r) fail("dvbcsa_bs_batch_size %s", outcome_name(r));
    if (n != want) fail("dvbcsa_bs_batch_size() is %u, the configured word holds %u packets", n, want);
  }
}

const mode_t_ modes_value[] = {
  { "single_pairs", single_pairs }, { "single_oa3", single_oa3 }, { "single_special", single_special },
  { "single_bits2", single_bits2 }, { "keys", keys }, { "key_flip", key_flip }, { "bs_pairs", bs_pairs },
  { "lens_single", lens_single }, { "dict", dict }, { "views", views }, { "lens_huge", lens_huge }, { "san_huge", san_huge }, { "lens_stub", lens_stub }, { "roundtrip", roundtrip }, { "batchsize", batchsize },
  { NULL, NULL }
};
