/* Environment modes: addresses and leftovers (C12), refusal (C14), processor state (C15). */
#include "mc.h"
#include <signal.h>
#include <fenv.h>
#include <sys/mman.h>

static inline unsigned minu(unsigned a, unsigned b) { return a < b ? a : b; }

/* ---- leftovers --------------------------------------------------------------- */
#define STACKFILL (384 * 1024)
__attribute__((noinline)) void stack_fill(int byte)
{
  volatile unsigned char a[STACKFILL];
  if (byte == 0x100) for (size_t i = 0; i < sizeof a; i++) a[i] = mix64(i >> 3) >> 8 * (i & 7);
  else memset((void *)a, byte, sizeof a);
  __asm__ volatile("" : : "r"(a) : "memory");
}
static void reg_fill(int byte)
{
  unsigned char p[32] __attribute__((aligned(32)));
  if (byte == 0x100) for (int i = 0; i < 32; i++) p[i] = 37 * i + 11;
  else memset(p, byte, 32);
#if defined(__x86_64__)
  if (__builtin_cpu_supports("avx"))
    __asm__ volatile(
      "vmovdqu (%0),%%ymm0\n vmovdqu (%0),%%ymm1\n vmovdqu (%0),%%ymm2\n vmovdqu (%0),%%ymm3\n"
      "vmovdqu (%0),%%ymm4\n vmovdqu (%0),%%ymm5\n vmovdqu (%0),%%ymm6\n vmovdqu (%0),%%ymm7\n"
      "vmovdqu (%0),%%ymm8\n vmovdqu (%0),%%ymm9\n vmovdqu (%0),%%ymm10\n vmovdqu (%0),%%ymm11\n"
      "vmovdqu (%0),%%ymm12\n vmovdqu (%0),%%ymm13\n vmovdqu (%0),%%ymm14\n vmovdqu (%0),%%ymm15\n"
      : : "r"(p) : "memory", "xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15");
#elif defined(__aarch64__)
  __asm__ volatile("ldr q0,[%0]\n ldr q1,[%0]\n ldr q2,[%0]\n ldr q3,[%0]\n ldr q4,[%0]\n ldr q5,[%0]\n ldr q6,[%0]\n ldr q7,[%0]\n"
    "ldr q16,[%0]\n ldr q17,[%0]\n ldr q18,[%0]\n ldr q19,[%0]\n ldr q20,[%0]\n ldr q21,[%0]\n ldr q22,[%0]\n ldr q23,[%0]\n"
    "ldr q24,[%0]\n ldr q25,[%0]\n ldr q26,[%0]\n ldr q27,[%0]\n ldr q28,[%0]\n ldr q29,[%0]\n ldr q30,[%0]\n ldr q31,[%0]\n"
    : : "r"(p) : "memory","v0","v1","v2","v3","v4","v5","v6","v7","v16","v17","v18","v19","v20","v21","v22","v23","v24","v25","v26","v27","v28","v29","v30","v31");
#endif
}
static const int fills[] = { 0, 0xff, 0xa5, 0x100, 0x01, 0x80 };
#define NFILL 4

static void set_both(skey *k, bkey *q, const uint8_t *cw, int f)
{
  int r;
  st_trans += 2; case_progress_tick++;
  if (k) { stack_fill(f); r = LIBCALL_(reg_fill(f); lib.key_set(cw, k)); if (r) fail("dvbcsa_key_set %s", outcome_name(r)); }
  if (q) { stack_fill(f); r = LIBCALL_(reg_fill(f); lib.bs_key_set(cw, q)); if (r) fail("dvbcsa_bs_key_set %s", outcome_name(r)); }
}
static void f_crypt(int f, int dir, skey *k, uint8_t *d, unsigned len)
{
  int r;
  st_trans++; case_progress_tick++;
  stack_fill(f);
  if (dir == ENC) r = LIBCALL_(reg_fill(f); lib.encrypt(k, d, len)); else r = LIBCALL_(reg_fill(f); lib.decrypt(k, d, len));
  if (r) fail("dvbcsa_%s %s", dirname_(dir), outcome_name(r));
}
static void f_bs_crypt(int f, int dir, bkey *q, batch_t *b, unsigned M)
{
  int r;
  st_trans++; case_progress_tick++;
  stack_fill(f);
  if (dir == ENC) r = LIBCALL_(reg_fill(f); lib.bs_encrypt(q, b, M)); else r = LIBCALL_(reg_fill(f); lib.bs_decrypt(q, b, M));
  if (r) fail("dvbcsa_bs_%s %s", dirname_(dir), outcome_name(r));
}

/* payload and control word at every address offset */
static void align_single(void)
{
  static uint8_t pb[4096] __attribute__((aligned(4096))), cb[128] __attribute__((aligned(64)));
  static const unsigned lens[] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,39,40,41,47,48,49,63,64,65,71,72,127,128,129,136,176,177,178,179,180,181,182,183,184 };
  uint8_t p[256];
  for (unsigned off = 0; off < 64; off++)
    for (unsigned li = 0; li < sizeof lens / sizeof *lens; li++) {
      unsigned len = lens[li];
      if (!case_begin("single-packet calls, %u bytes at address offset %u, control word at offset %u, context shifted by %u", len, off, (off + li) & 15, off & 7)) continue;
      al_shift = off & 7;
      skey *k = m_key_alloc();
      uint8_t *c = cb + ((off + li) & 15), *d = pb + 1024 + off;
      geo_cw(li % GK, c);
      m_key_set(c, k);
      for (int dir = 0; dir < 2; dir++) {
        memset(pb, 0xc7, sizeof pb);
        geo_payload(li, p, len);
        memcpy(d, p, len);
        m_crypt(dir, k, d, len);
        check_bytes(d, geo_expect(li % GK, dir, li, len), len, "%s %u bytes at offset %u", dirname_(dir), len, off);
        if (d[-1] != 0xc7 || d[len] != 0xc7) fail("wrote outside the payload");
      }
      sample("%u bytes at address offset %u: encrypt and decrypt give the reference result", len, off);
      m_key_free(k);
      al_shift = 0;
    }
  /* payloads crossing a page boundary at every point */
  for (unsigned before = 0; before <= 40; before++)
    for (int dir = 0; dir < 2; dir++) {
      static uint8_t two[8192] __attribute__((aligned(4096)));
      if (!case_begin("single-packet %s, 40 bytes of which %u before a page boundary", dirname_(dir), before)) continue;
      skey *k = m_key_alloc();
      geo_cw(1, cb); m_key_set(cb, k);
      geo_payload(3, two + 4096 - before, 40);
      m_crypt(dir, k, two + 4096 - before, 40);
      check_bytes(two + 4096 - before, geo_expect(1, dir, 3, 40), 40, "%s across a page boundary", dirname_(dir));
      m_key_free(k);
    }
}

static uint8_t bpool[1024][512] __attribute__((aligned(64)));
static batch_t barr[1024 + 16];
/* address bits above the alignment: payload, control word and packets of a batch at
 * addresses of every size (each address bit 12..46 alone, all set, none), at every
 * 16th offset of a 64 KiB stretch, and with packets that overlap in their low bits,
 * lie back to back, in descending order, or on both sides of a 4 GiB boundary */
static uint8_t *map_at(uintptr_t a, size_t n)
{
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) return NULL;
  if ((uintptr_t)p != a) { munmap(p, n); return NULL; }
  return p;
}
static void addr_one(uint8_t *d, unsigned len, unsigned g, const char *where)
{
  uint8_t cw[8];
  skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
  geo_cw(g % GK, cw);
  m_key_set(cw, k); m_bs_key_set(cw, q);
  for (int dir = 0; dir < 2; dir++) {
    batch_t t[2] = { { d, len }, { NULL, TERMLEN } };
    geo_payload(g % GP, d, len);
    m_crypt(dir, k, d, len);
    check_bytes(d, geo_expect(g % GK, dir, g % GP, len), len, "single-packet %s, %u bytes at %s (%p)", dirname_(dir), len, where, (void *)d);
    geo_payload(g % GP, d, len);
    m_bs_crypt(dir, q, t, 184);
    check_bytes(d, geo_expect(g % GK, dir, g % GP, len), len, "parallel %s, %u bytes at %s (%p)", dirname_(dir), len, where, (void *)d);
  }
  m_key_free(k); m_bs_key_free(q);
}
static void addresses(void)
{
  unsigned step = arg_i("step", 16);
  static uint8_t *wide;
  if (!wide) wide = guard_start(65536 * 2 + 512) + 0;
  uint8_t *al = (uint8_t *)(((uintptr_t)wide + 65535) & ~(uintptr_t)65535);
  for (unsigned o = 0; o < 65536; o += 1024) {
    if (!case_begin("payloads at offsets %u.. (every %u) of a 64 KiB stretch", o, step)) continue;
    uint8_t *a = al + 65536 <= wide + 65536 * 2 + 512 - 256 ? al : wide;
    for (unsigned i = o; i < o + 1024; i += step) {
      unsigned len = i % 3 ? 184 - i / 16 % 9 : 40;
      addr_one(a + (i + i / 1024 % step) % 65536, len, i / 7, "an offset of a 64 KiB stretch");
    }
  }
  unsigned mapped = 0;
  for (int b = 12; b <= 47; b++) {
    uintptr_t ad = b == 47 ? (uintptr_t)0x7ffffffe0000ull & ~(uintptr_t)0xffff : (uintptr_t)1 << b;
    if ((ad != ((uintptr_t)1 << b) && b < 47) || ad == 0) continue;
    if (!case_begin("payload and control word at an address with only bit %d set (and around it)", b)) continue;
    uint8_t *m = map_at(ad, 65536);
    if (!m) continue;                   /* taken, or not for us */
    mapped++;
    addr_one(m, 184, b, "a power of two");
    addr_one(m + 1000 + b, 177, b + 1, "behind a power of two");
    uint8_t *w = map_at(ad - 65536, 65536);
    if (w && ad > 65536) {
      for (int x = 1; x < 40; x += 6) addr_one(m - x, 99, b + x, "across a power of two");
      munmap(w, 65536);
    }
    skey *k = m_key_alloc();
    geo_cw(1, m + 3); m_key_set(m + 3, k);
    geo_payload(5, m + 64, 184);
    m_crypt(DEC, k, m + 64, 184);
    check_bytes(m + 64, geo_expect(1, DEC, 5, 184), 184, "decrypt after setting the control word from a power of two");
    m_key_free(k);
    munmap(m, 65536);
  }
  stat_add("address_bits_mapped", mapped);
  /* layouts of the packets of a batch */
  static uint8_t room[256 * 4096 + 8192] __attribute__((aligned(4096)));
  static batch_t t[1025];
  for (unsigned lay = 0; lay < 8; lay++)
    for (int dir = 0; dir < 2; dir++) {
      if (!case_begin("parallel %s, packets of a full batch laid out in memory in way %u", dirname_(dir), lay)) continue;
      uint8_t cw[8];
      bkey *q = m_bs_key_alloc();
      geo_cw(lay % GK, cw); m_bs_key_set(cw, q);
      for (unsigned n = B; n > 0; n = n > 4 ? n / 2 + n % 3 : n - 1) {
        static unsigned ln[1024];
        size_t at = 0;
        for (unsigned i = 0; i < n; i++) {
          unsigned l = lay == 5 ? (i * 29 + n) % 185 : 184;
          ln[i] = l;
          uint8_t *d;
          switch (lay) {
            case 0: d = room + 188 * i + 4; break;              /* transport packets */
            case 1: d = room + 188 * (n - 1 - i) + 4; break;    /* in descending order */
            case 2: d = room + 4096 * i; break;                 /* same low bits */
            case 3: d = room + 4096 * i + 4000; break;          /* all across pages */
            case 4: d = room + 184 * i; break; /* back to back */
            case 5: d = room + at; at += l; break;              /* back to back, any length */
            case 6: d = room + 184 * (i % 2 ? i / 2 + (n + 1) / 2 : i / 2); break; /* two runs */
            default: d = room + 200 * (i ^ 1); break;           /* pairs swapped */
          }
          t[i] = (batch_t){ d, l };
        }
        for (unsigned i = 0; i < n; i++) geo_payload((i + lay) % GP, t[i].data, ln[i]);
        t[n] = (batch_t){ NULL, TERMLEN };
        m_bs_crypt(dir, q, t, 184);
        for (unsigned i = 0; i < n; i++)
          check_bytes(t[i].data, geo_expect(lay % GK, dir, (i + lay) % GP, ln[i]), ln[i], "%s slot %u of %u, layout %u", dirname_(dir), i, n, lay);
      }
      m_bs_key_free(q);
    }
}
/* where the packets of a batch lie relative to one another, with which lengths */
static void layouts(void)
{
  static const unsigned strides[] = { 0, 184, 188, 192, 204, 208, 256, 512, 4096 };
  static uint8_t room[256 * 4096 + 8192] __attribute__((aligned(4096)));
  static batch_t t[1025];
  static unsigned ln[1024];
  static uint8_t *at[1024];
  unsigned step = arg_i("step", 1), c = 0;
  for (unsigned si = 0; si < sizeof strides / sizeof *strides; si++)
    for (unsigned order = 0; order < 4; order++)
      for (unsigned prof = 0; prof < 14; prof++)
        for (unsigned ni = 0; ni < 7; ni++) {
          unsigned n = (unsigned[]){ 2, 3, 4, 5, B / 2, B - 1, B }[ni];
          if (c++ % step) continue;
          if (!case_begin("%u packets of length profile %u, %s%u, order %u", n, prof, strides[si] ? "each that many bytes behind the other: " : "back to back ", strides[si], order)) continue;
          uint8_t cw[8];
          bkey *q = m_bs_key_alloc();
          geo_cw(ni % GK, cw); m_bs_key_set(cw, q);
          for (unsigned i = 0; i < n; i++)
            switch (prof) {
              case 0: ln[i] = 184; break;
              case 1: ln[i] = 100; break;
              case 2: ln[i] = i & 1 ? 8 : 184; break;
              case 3: ln[i] = i & 1 ? 184 : 7; break;
              case 4: ln[i] = 184 - i % 185; break;
              case 5: ln[i] = (i * 29 + n) % 185; break;
              default: {                                        /* one packet shorter (or empty) than the others */
                unsigned j = (unsigned[]){ 0, 1, n / 2, n - 2 + (n < 2), n - 1, 2, 3, n / 3 }[prof - 6];
                ln[i] = i == j % n ? (prof & 1 ? 101 : ni & 1 ? 0 : 176) : 184;
              }
            }
          size_t o = 8;
          for (unsigned k = 0; k < n; k++) {                    /* k: place in memory, i: place in the batch */
            unsigned i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (n & 1 && k == n - 1 ? k : k ^ 1) : (k & 1 ? (n + 1) / 2 + k / 2 : k / 2);
            at[i] = room + (strides[si] ? 8 + strides[si] * k : o);
            o += ln[i];
          }
          for (int dir = 0; dir < 2; dir++)
            for (unsigned M = 184; M; M = M == 184 ? 96 : 0) {
              for (unsigned i = 0; i < n; i++) { t[i] = (batch_t){ at[i], ln[i] }; geo_payload((i + prof) % GP, at[i], ln[i]); }
              t[n] = (batch_t){ NULL, TERMLEN };
              m_bs_crypt(dir, q, t, M);
              for (unsigned i = 0; i < n; i++)
                check_bytes(at[i], geo_expect(ni % GK, dir, (i + prof) % GP, minu(ln[i], M)), minu(ln[i], M), "%s slot %u of %u", dirname_(dir), i, n);
            }
          m_bs_key_free(q);
        }
}
/* the things a call is given lying next to one another in memory, in every order and
 * at every small distance (and at small distances off a multiple of a page, 64 KiB or
 * 4 GiB): what a call does must not depend on where its arguments lie */
enum { T_KEY, T_PAY, T_CW, T_ARR, T_PAY2 };
static void put_one(const char *what, int bs, int dir, unsigned len, uint8_t *kat, uint8_t *pay, uint8_t *cwp, batch_t *arr, uint8_t *pay2, uint8_t *mem, size_t n)
{
  static uint8_t before[262144];
  size_t ks;
  void *k;
  uint8_t cw[8];
  al_pool_set(kat, mem + n);
  k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
  ks = al_pool - (uint8_t *)k;
  al_pool = NULL;
  geo_cw(len % GK, cw);
  memcpy(cwp, cw, 8);
  memcpy(before, mem, n);
  if (bs) m_bs_key_set(cwp, k); else m_key_set(cwp, k);
  for (size_t i = 0; i < n; i++)
    if (mem[i] != before[i] && !(mem + i >= kat && mem + i < (uint8_t *)k + ks)) fail("key setup wrote outside the context, %s", what);
  geo_payload(len, pay, len);
  if (pay2) geo_payload(len + 1, pay2, 40);
  if (arr) { unsigned j = 0; arr[j++] = (batch_t){ pay, len }; if (pay2) arr[j++] = (batch_t){ pay2, 40 }; arr[j] = (batch_t){ NULL, TERMLEN }; }
  memcpy(before, mem, n);
  if (bs) m_bs_crypt(dir, k, arr, 184); else m_crypt(dir, k, pay, len);
  check_bytes(pay, geo_expect(len % GK, dir, len, len), len, "%s %s, %s", bs ? "parallel" : "single-packet", dirname_(dir), what);
  if (pay2) check_bytes(pay2, geo_expect(len % GK, dir, len + 1, 40), 40, "%s, second packet, %s", dirname_(dir), what);
  for (size_t i = 0; i < n; i++)
    if (mem[i] != before[i] && !(mem + i >= pay && mem + i < pay + len) && !(pay2 && mem + i >= pay2 && mem + i < pay2 + 40) &&
        !(mem + i >= kat && mem + i < (uint8_t *)k + ks)) fail("processing wrote outside payloads and context, %s", what);
  if (bs) m_bs_key_free(k); else m_key_free(k);
  al_pool_set(NULL, NULL);
}
static void neighbours(void)
{
  static uint8_t mem_[65536] __attribute__((aligned(4096)));
  static const uint8_t perm[24][4] = { {0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},
    {2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0} };
  static const unsigned lens[] = { 184, 29, 8, 40, 17, 183 };
  static size_t size[5];
  unsigned gmax = arg_i("gmax", 80), gstep = arg_i("gstep", 1);
  char what[200];
  for (int bs = 0; bs < 2; bs++) {
    for (int i = 0; i < 2; i++) {               /* whatever the library makes for itself once is made now */
      uint8_t cw0[8] = { 1 }, d0[8] = { 0 };
      batch_t b0[2] = { { d0, 8 }, { NULL, TERMLEN } };
      void *k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
      if (bs) m_bs_key_set(cw0, k); else m_key_set(cw0, k);
      for (int dir = 0; dir < 2; dir++) if (bs) m_bs_crypt(dir, k, b0, 8); else m_crypt(dir, k, d0, 8);
      if (bs) m_bs_key_free(k); else m_key_free(k);
    }
    al_pool_set(mem_, mem_ + sizeof mem_);
    void *k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
    size_t ks = al_pool - (uint8_t *)k;
    if (bs) m_bs_key_free(k); else m_key_free(k);
    al_pool_set(NULL, NULL);
    if (ks > 16384) { stat_add("large_contexts", 1); continue; }
    for (unsigned pi = 0; pi < 24; pi++)
      for (unsigned g = 0; g < gmax; g += gstep)
        for (unsigned li = 0; li < (g % 4 ? 2 : 6); li++) {
          unsigned len = lens[li];
          if (!case_begin("%s calls, context, payload of %u bytes, control word and batch in memory in order %u with gaps of %u bytes", bs ? "parallel" : "single-packet", len, pi, g)) continue;
          size[T_KEY] = ks; size[T_PAY] = len; size[T_CW] = 8; size[T_ARR] = bs ? 3 * sizeof(batch_t) + 16 : 24;
          for (int dir = 0; dir < 2; dir++)
            for (int tight = 0; tight < (perm[pi][0] == T_KEY ? 1 : 2); tight++) {
              uint8_t *pos[5] = { 0 }, *at = mem_ + 2048 + (g & 7);
              memset(mem_, 0xc7, 32768);
              for (int i = 0; i < 4; i++) {
                int x = perm[pi][i];
                if (x == T_ARR) at = (uint8_t *)(((uintptr_t)at + 15) & ~(uintptr_t)15);
                if (x == T_KEY) {
                  uint8_t *ka = (uint8_t *)(((uintptr_t)at + 63) & ~(uintptr_t)63);
                  /* exactly that far behind: move what precedes it up to it */
                  if (tight) for (int j = 0; j < i; j++) if (perm[pi][j] != T_ARR) pos[perm[pi][j]] += ka - at;
                  at = ka;
                }
                pos[x] = at;
                at += size[x] + g;
              }
              /* what was moved must not lie over the batch */
              int clash = 0;
              for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++)
                if (a != b && pos[a] <= pos[b] && pos[a] + size[a] > pos[b]) clash = 1;
              if (clash) continue;
              snprintf(what, sizeof what, "context at %p, payload of %u bytes at %p, control word at %p, batch at %p", (void *)pos[T_KEY], len, (void *)pos[T_PAY], (void *)pos[T_CW], (void *)pos[T_ARR]);
              put_one(what, bs, dir, len, pos[T_KEY], pos[T_PAY], pos[T_CW], bs ? (batch_t *)pos[T_ARR] : NULL, NULL, mem_, 32768);
            }
          sample("%s calls, order %u in memory, gaps of %u bytes, %u byte payload", bs ? "parallel" : "single-packet", pi, g, len);
        }
    /* two packets and the context: payloads close on both sides, and in the same place of another page */
    for (unsigned g = 0; g < gmax; g += gstep)
      for (unsigned far = 0; far < 4; far++) {
        static const unsigned fars[] = { 0, 4096, 8192, 16384 };
        if (!case_begin("%s calls, payloads %u bytes before and behind the context, %u further away", bs ? "parallel" : "single-packet", g, fars[far])) continue;
        for (int dir = 0; dir < 2; dir++)
          for (int before = 0; before < 2; before++) {
            uint8_t *kat = mem_ + 20480, *pay = before ? kat - fars[far] - g - 184 : kat + fars[far] + ks + g;
            uint8_t *p2 = before ? pay - 40 : pay + 184;
            if (!before && far) pay = kat + fars[far] + g, p2 = pay + 184;
            if (!before && pay < kat + ks) continue;
            memset(mem_, 0xc7, sizeof mem_);
            snprintf(what, sizeof what, "context at %p, payloads at %p and %p", (void *)kat, (void *)pay, (void *)p2);
            put_one(what, bs, dir, 184, kat, pay, mem_ + 64, bs ? (batch_t *)(mem_ + 128) : NULL, bs ? p2 : NULL, mem_, sizeof mem_);
          }
      }
  }
  /* payload and context a multiple of 4 GiB apart */
  if (sizeof(void *) == 8)
    for (unsigned mult = 1; mult <= 2; mult++) {
      uint8_t *lo = NULL, *hi = NULL;
      for (uintptr_t a = (uintptr_t)0x130000000000ull; a < (uintptr_t)0x138000000000ull && !hi; a += (uintptr_t)0x700000000ull) {
        lo = map_at(a, 65536);
        if (lo && !(hi = map_at(a + ((uintptr_t)(mult * 2 - 1) << 31 << 1), 65536))) { munmap(lo, 65536); lo = NULL; }
      }
      if (!hi) continue;
      for (int swap = 0; swap < 2; swap++)
        for (int d = -200; d <= 200; d += 8) {
          if (!case_begin("payload %u * 4 GiB %+d bytes %s the context", mult * 2 - 1, d, swap ? "below" : "above")) continue;
          uint8_t *kat = (swap ? hi : lo) + 4096, *pay = (swap ? lo : hi) + 4096 + d, cw[8];
          for (int bs = 0; bs < 2; bs++)
            for (int dir = 0; dir < 2; dir++) {
              batch_t b[2] = { { pay, 184 }, { NULL, TERMLEN } };
              al_pool_set(kat, kat + 32768);
              void *k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
              al_pool = NULL;
              geo_cw(1, cw);
              if (bs) m_bs_key_set(cw, k); else m_key_set(cw, k);
              geo_payload(d & 63, pay, 184);
              if (bs) m_bs_crypt(dir, k, b, 184); else m_crypt(dir, k, pay, 184);
              check_bytes(pay, geo_expect(1, dir, d & 63, 184), 184, "%s %s with the payload at %p and the context at %p", bs ? "parallel" : "single-packet", dirname_(dir), (void *)pay, k);
              if (bs) m_bs_key_free(k); else m_key_free(k);
              al_pool_set(NULL, NULL);
            }
        }
      munmap(lo, 65536); munmap(hi, 65536);
    }
}
static void align_bs(void)
{
  static uint8_t cb[128] __attribute__((aligned(64)));
  unsigned kmax = arg_i("kmax", 4), step = arg_i("step", 1);
  static const unsigned ks[] = { 0, 1, 7, 33 };
  static const unsigned Ms[] = { 184, 24, 96 };
  for (unsigned ki = 0; ki < kmax; ki++)
    for (unsigned s = 0; s < 64; s += step)
      for (unsigned mi = 0; mi < 3; mi++)
        for (int dir = 0; dir < 2; dir++) {
          unsigned n = s & 8 ? B : B - s % B, key = s % GK, M = Ms[mi];
          batch_t *a = barr + (s & 7);
          if (!case_begin("parallel %s, %u packets, maximum length %u, payload offsets (%u*i+%u)%%64, control word offset %u", dirname_(dir), n, M, ks[ki], s, s & 15)) continue;
          al_shift = s & 3;
          bkey *q = m_bs_key_alloc();
          geo_cw(key, cb + (s & 15));
          m_bs_key_set(cb + (s & 15), q);
          for (unsigned i = 0; i < n; i++) {
            unsigned l = (i * 41 + s * 3) % 185;
            memset(bpool[i], 0xc7, 512);
            a[i] = (batch_t){ bpool[i] + 64 + (ks[ki] * i + s) % 64, l };
            geo_payload((i + s) % GP, a[i].data, l);
          }
          a[n] = (batch_t){ NULL, TERMLEN };
          m_bs_crypt(dir, q, a, M);
          for (unsigned i = 0; i < n; i++) {
            unsigned l = a[i].len, e = minu(l, M);
            check_bytes(a[i].data, geo_expect(key, dir, (i + s) % GP, e), e, "%s slot %u length %u offset %u", dirname_(dir), i, l, (ks[ki] * i + s) % 64);
            if (a[i].data[-1] != 0xc7 || a[i].data[l] != 0xc7) fail("wrote outside the payload in slot %u", i);
          }
          sample("parallel %s, %u packets at address offsets (%u*i+%u) mod 64", dirname_(dir), n, ks[ki], s);
          m_bs_key_free(q);
          al_shift = 0;
        }
}

/* stack, registers and fresh context filled with different leftovers */
static void leftovers(void)
{
  uint8_t cw[8], d[200];
  static const unsigned ns[] = { 1, 2, 3, 5, 0x1000, 0x1001, 0x1004, 0x2000, 0 };       /* 0x1000+x: B-x; 0x2000: B/2 */
  static const unsigned Ms[] = { 0, 8, 16, 96, 184 };
  unsigned nf = arg_i("nfill", NFILL), step = arg_i("step", 1);
  for (unsigned f = 0; f < nf; f++)
    for (unsigned g = 0; g < 3; g++) {
      al_fill = g == 0 ? 0 : g == 1 ? 0xff : 0x5a;
      for (unsigned len = 0; len <= 184; len += len < 40 ? 1 : 9 * step)
        for (int dir = 0; dir < 2; dir++) {
          if (!case_begin("single-packet %s of %u bytes, stack and registers %02x, fresh context %02x", dirname_(dir), len, fills[f], al_fill)) continue;
          stack_fill(fills[f]);
          skey *k = m_key_alloc();
          geo_cw(len % GK, cw);
          set_both(k, NULL, cw, fills[f]);
          geo_payload(len, d, len);
          f_crypt(fills[f], dir, k, d, len);
          check_bytes(d, geo_expect(len % GK, dir, len, len), len, "%s %u bytes", dirname_(dir), len);
          m_key_free(k);
        }
      for (unsigned ni = 0; ni < sizeof ns / sizeof *ns; ni++)
        for (unsigned mi = 0; mi < 5; mi++)
          for (unsigned prof = 0; prof < 3; prof++)
            for (int dir = 0; dir < 2; dir++) {
              unsigned n = ns[ni] & 0x2000 ? B / 2 : ns[ni] & 0x1000 ? B - (ns[ni] & 15) : ns[ni], M = Ms[mi];
              if (!case_begin("parallel %s, %u packets of profile %u, maximum length %u, stack and registers %02x, fresh context %02x", dirname_(dir), n, prof, M, fills[f], al_fill)) continue;
              stack_fill(fills[f]);
              bkey *q = m_bs_key_alloc();
              geo_cw(ni % GK, cw);
              set_both(NULL, q, cw, fills[f]);
              for (unsigned i = 0; i < n; i++) {
                unsigned l = prof == 0 ? 184 : prof == 1 ? (i * 29 + 3) % 185 : i % 19;
                barr[i] = (batch_t){ bpool[i], l };
                geo_payload((i + n) % GP, bpool[i], l);
              }
              barr[n] = (batch_t){ NULL, TERMLEN };
              f_bs_crypt(fills[f], dir, q, barr, M);
              for (unsigned i = 0; i < n; i++) {
                unsigned l = barr[i].len, e = minu(l, M);
                check_bytes(bpool[i], geo_expect(ni % GK, dir, (i + n) % GP, e), e, "%s slot %u length %u", dirname_(dir), i, l);
              }
              sample("parallel %s, %u packets, maximum length %u with the stack below the caller and the vector registers filled with %02x", dirname_(dir), n, M, fills[f]);
              m_bs_key_free(q);
            }
      /* key setup alone, all structured words */
      for (unsigned i = 0; special_cw(i, cw) && i < 400; i += 3 * step) {
        ref_key rk;
        uint8_t w[24];
        if (!case_begin("key setup of both flavours, structured control word %u, stack and registers %02x, fresh context %02x", i, fills[f], al_fill)) continue;
        skey *k = m_key_alloc(); bkey *q = m_bs_key_alloc();
        set_both(k, q, cw, fills[f]);
        ref_set(&rk, cw);
        for (int j = 0; j < 24; j++) w[j] = d[j] = bpool[0][j] = j * 7 + i;
        ref_encrypt(&rk, w, 24);
        m_crypt(ENC, k, d, 24);
        check_bytes(d, w, 24, "encrypt cw=%s", hex(cw, 8));
        barr[0] = (batch_t){ bpool[0], 24 }; barr[1] = (batch_t){ NULL, TERMLEN };
        m_bs_crypt(ENC, q, barr, 24);
        check_bytes(bpool[0], w, 24, "parallel encrypt cw=%s", hex(cw, 8));
        m_key_free(k); m_bs_key_free(q);
      }
    }
  al_fill = 0xa5;
}

/* ---- C14 --------------------------------------------------------------------------- */
static int try_maxlen(int dir, bkey *q, uint32_t M, unsigned n)
{
  static uint8_t d[4][208];
  static const unsigned ls[4] = { 184, 23, 0, 176 };
  batch_t b[5];
  int r;
  for (unsigned i = 0; i < n; i++) {
    geo_payload(i, d[i], 200);
    b[i] = (batch_t){ d[i], ls[i] };
  }
  b[n] = (batch_t){ NULL, TERMLEN };
  r = l_bs_crypt(dir, q, b, M);
  st_checked++;
  if (M % 8 == 0 && M <= 184) {
    if (r) fail("dvbcsa_bs_%s with the valid maximum length %u %s", dirname_(dir), M, outcome_name(r));
    for (unsigned i = 0; i < n; i++) {
      unsigned e = minu(ls[i], M);
      check_bytes(d[i], geo_expect(0, dir, i, e), e, "%s with maximum length %u", dirname_(dir), M);
    }
  } else {
    if (r != REFUSED && r != SIGABRT) fail("dvbcsa_bs_%s with the invalid maximum length %u (%u packets) %s instead of being refused", dirname_(dir), M, n, outcome_name(r));
    for (unsigned i = 0; i < n; i++) {
      uint8_t w[208];
      geo_payload(i, w, 200);
      if (memcmp(w, d[i], 200)) fail("dvbcsa_bs_%s with the invalid maximum length %u was refused after modifying packet %u", dirname_(dir), M, i);
    }
  }
  return r;
}
static void refuse(void)
{
  const char *what = arg_s("what", "near");
  uint8_t cw[8];
  geo_cw(0, cw);
  if (!strcmp(what, "near")) {
    unsigned top = arg_i("top", 4096);
    for (uint32_t M = 0; M < top; M++)
      for (unsigned n = 0; n < 4; n++)
        for (int dir = 0; dir < 2; dir++) {
          if (!case_begin("parallel %s, maximum length %u, %u packets", dirname_(dir), M, n)) continue;
          bkey *q = m_bs_key_alloc();
          m_bs_key_set(cw, q);
          try_maxlen(dir, q, M, n);
          if (M % 8 || M > 184) sample("parallel %s with maximum length %u: refused, payload untouched", dirname_(dir), M);
          m_bs_key_free(q);
        }
    /* around every power of two and every multiple of a large one */
    for (unsigned i = 0; i < 32 * 33; i++) {
      uint32_t M = (1u << (i / 33)) + (i % 33 - 16) * (i % 3 == 2 ? 8 : 1), M2 = (i % 256) << 24 | (i / 256) * 8;
      for (int dir = 0; dir < 2; dir++) {
        if (!case_begin("parallel %s, maximum lengths %u and %u", dirname_(dir), M, M2)) continue;
        bkey *q = m_bs_key_alloc();
        m_bs_key_set(cw, q);
        try_maxlen(dir, q, M, 2);
        try_maxlen(dir, q, M2, 2);
        m_bs_key_free(q);
      }
    }
  } else {      /* all 2^32 values, or every one below 2^bits */
    mute_stderr();      /* a refusal may say so, hundreds of millions of times */
    uint64_t top = 1ull << arg_i("bits", 32), chunk = 1 << 16;
    for (uint64_t c = 0; c < top; c += chunk)
      for (int dir = 0; dir < 2; dir++) {
        if (!case_begin("parallel %s, maximum lengths %llu..%llu, each of them", dirname_(dir), (unsigned long long)c, (unsigned long long)(c + chunk - 1))) continue;
        bkey *q = m_bs_key_alloc();
        m_bs_key_set(cw, q);
        uint8_t d[16], w[16];
        batch_t b[2] = { { d, 16 }, { NULL, TERMLEN } };
        geo_payload(1, w, 16);
        memcpy(d, w, 16);
        for (uint64_t M = c; M < c + chunk; M++) {
          int r;
          if (M % 8 == 0 && M <= 184) { try_maxlen(dir, q, M, 2); continue; }
          st_checked++;
          r = l_bs_crypt(dir, q, b, M);
          if (r != REFUSED && r != SIGABRT) fail("dvbcsa_bs_%s with the invalid maximum length %llu %s instead of being refused", dirname_(dir), (unsigned long long)M, outcome_name(r));
          if (memcmp(d, w, 16)) fail("dvbcsa_bs_%s with the invalid maximum length %llu was refused after modifying the payload", dirname_(dir), (unsigned long long)M);
        }
        m_bs_key_free(q);
      }
  }
}

/* ---- C15 --------------------------------------------------------------------------- */
#if defined(__x86_64__)
/* call_watched(fn, a, b, c, w): loads known values into the callee-saved
 * registers, calls fn(a, b, c) and stores the processor state right after it */
struct watch {
  uint64_t rbx, rbp, r12, r13, r14, r15, rsp_before, rsp_after, flags, ret;
  uint8_t fx[512] __attribute__((aligned(16)));
};
uint64_t call_watched(void *fn, const void *a, const void *b, uint64_t c, struct watch *w);
__asm__(
  ".text\n.globl call_watched\n.type call_watched,@function\ncall_watched:\n"
  "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %r8\n"
  "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\n"
  "mov %rsp,48(%r8)\n"
  "movabs $0x1111111122222222,%rbx\nmovabs $0x3333333344444444,%rbp\nmovabs $0x5555555566666666,%r12\n"
  "movabs $0x7777777788888888,%r13\nmovabs $0x99999999aaaaaaaa,%r14\nmovabs $0xbbbbbbbbcccccccc,%r15\n"
  "call *%rax\n"
  "mov (%rsp),%r8\n"
  "pushfq\npop %rcx\nmov %rcx,64(%r8)\ncld\n"
  "mov %rbx,0(%r8)\nmov %rbp,8(%r8)\nmov %r12,16(%r8)\nmov %r13,24(%r8)\nmov %r14,32(%r8)\nmov %r15,40(%r8)\nmov %rsp,56(%r8)\nmov %rax,72(%r8)\n"
  "fxsave64 80(%r8)\n"
  "pop %r8\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n"
  ".size call_watched,.-call_watched\n");
static uint32_t get_mxcsr(void) { uint32_t v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v; }
static void set_mxcsr(uint32_t v) { __asm__ volatile("ldmxcsr %0" : : "m"(v)); }
static uint16_t get_fcw(void) { uint16_t v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
static void set_fcw(uint16_t v) { __asm__ volatile("fldcw %0" : : "m"(v)); }
static void fpclean(uint16_t fcw, uint32_t mx) { __asm__ volatile("fninit"); set_fcw(fcw); set_mxcsr(mx); }

static uint64_t watched(const char *what, void *fn, const void *a, const void *b, uint64_t c, uint16_t fcw, uint32_t mx)
{
  static struct watch w;
  int r;
  long double x;
  st_trans++; st_checked++; case_progress_tick++;
  memset(&w, 0, sizeof w);
  fpclean(fcw, mx);
  r = LIBCALL_(call_watched(fn, a, b, c, &w));
  fpclean(0x37f, 0x1f80);
  if (r) fail("%s %s", what, outcome_name(r));
  if (w.fx[4]) fail("after %s the x87 register stack is not empty (tag byte %02x): the caller's x87 code fails", what, w.fx[4]);
  if ((w.fx[0] | w.fx[1] << 8) != fcw) fail("after %s the x87 control word is %04x, was %04x", what, w.fx[0] | w.fx[1] << 8, fcw);
  if ((w.fx[3] & 0x38)) fail("after %s the x87 stack top is %d, was 0", what, w.fx[3] >> 3 & 7);
  { uint32_t m; memcpy(&m, w.fx + 24, 4); if ((m & 0xffc0) != (mx & 0xffc0)) fail("after %s MXCSR is %04x, was %04x", what, m, mx); }
  if (w.flags & 0x400) fail("after %s the direction flag is set", what);
  if (w.flags & 0x40100) fail("after %s the trap or alignment-check flag is set", what);
  if (w.rbx != 0x1111111122222222 || w.rbp != 0x3333333344444444 || w.r12 != 0x5555555566666666 || w.r13 != 0x7777777788888888 ||
      w.r14 != 0x99999999aaaaaaaa || w.r15 != 0xbbbbbbbbcccccccc || w.rsp_before != w.rsp_after)
    fail("after %s a register the callee must preserve has changed", what);
  /* and what a caller notices: the same arithmetic before and after, without resetting the x87 unit */
  fpclean(0x37f, 0x1f80);
  (void)x;
  return w.ret;
}
static long double fpwork(void)
{
  volatile long double a = 1.25L, s = 0;
  volatile double d = 0.1;
  for (int i = 1; i < 12; i++) s = s + a / i - (long double)d * i;
  return s;
}
static void noticed(const char *what, int dir, int bs, skey *k, bkey *q, uint8_t *d, batch_t *b, unsigned M)
{
  long double before = fpwork(), after;
  if (bs) m_bs_crypt(dir, q, b, M); else m_crypt(dir, k, d, M);
  after = fpwork();
  st_checked++;
  if (!(before == after)) { __asm__ volatile("fninit"); fail("%s: the caller's floating-point computation gives another value afterwards", what); }
}
#else
static uint64_t watched(const char *what, void *fn, const void *a, const void *b, uint64_t c, uint16_t fcw, uint32_t mx)
{
  static const int rm[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
  int mode = rm[(fcw >> 10) & 3], r;
  uint64_t ret = 0;
  volatile double one = 1, three = 3, before, after;
#if defined(__aarch64__)
  uint64_t c0, c1;
#endif
  (void)mx;
  st_trans++; st_checked++; case_progress_tick++;
  fesetround(mode);
  before = one / three;
#if defined(__aarch64__)
  __asm__ volatile("mrs %0, fpcr" : "=r"(c0));
#endif
  r = LIBCALL_(ret = ((uint64_t (*)(const void *, const void *, uint64_t))fn)(a, b, c));
#if defined(__aarch64__)
  __asm__ volatile("mrs %0, fpcr" : "=r"(c1));
  if (c0 != c1) fail("after %s FPCR is %llx, was %llx", what, (unsigned long long)c1, (unsigned long long)c0);
#endif
  if (r) { fesetround(FE_TONEAREST); fail("%s %s", what, outcome_name(r)); }
  after = one / three;
  if (fegetround() != mode || before != after) { fesetround(FE_TONEAREST); fail("after %s the rounding mode has changed", what); }
  fesetround(FE_TONEAREST);
  return ret;
}
#endif

static void fpstate(void)
{
  static const uint16_t fcws[] = { 0x37f, 0xf7f, 0x27f, 0x77f, 0xb7e };
  static const uint32_t mxs[] = { 0x1f80, 0x7f80, 0x9fc0, 0x3f80, 0x1d80 };
  static const unsigned Ms[] = { 0, 8, 16, 24, 64, 176, 184 };
  uint8_t cw[8], d[256];
  unsigned nenv = arg_i("nenv", 5), nstep = arg_i("nstep", 1);
  char what[160];
  for (unsigned e = 0; e < nenv; e++) {
    uint16_t f = fcws[e]; uint32_t m = mxs[e];
    if (case_begin("allocation, key setup and release, floating-point environment %u", e)) {
      for (unsigned i = 0; i < 64; i++) {
        skey *k; bkey *q;
        special_cw(i * 5, cw);
        k = (skey *)(uintptr_t)watched("dvbcsa_key_alloc", (void *)lib.key_alloc, 0, 0, 0, f, m);
        q = (bkey *)(uintptr_t)watched("dvbcsa_bs_key_alloc", (void *)lib.bs_key_alloc, 0, 0, 0, f, m);
        if (!k || !q) fail("allocation failed");
        watched("dvbcsa_key_set", (void *)lib.key_set, cw, k, 0, f, m);
        watched("dvbcsa_bs_key_set", (void *)lib.bs_key_set, cw, q, 0, f, m);
        watched("dvbcsa_bs_batch_size", (void *)lib.bs_batch_size, 0, 0, 0, f, m);
        watched("dvbcsa_key_free", (void *)lib.key_free, k, 0, 0, f, m);
        watched("dvbcsa_bs_key_free", (void *)lib.bs_key_free, q, 0, 0, f, m);
        watched("dvbcsa_key_free(NULL)", (void *)lib.key_free, NULL, 0, 0, f, m);
        watched("dvbcsa_bs_key_free(NULL)", (void *)lib.bs_key_free, NULL, 0, 0, f, m);
        al_fill = -1; al_reset_fail(); al_failall = 1;
        watched("dvbcsa_bs_key_alloc (no memory)", (void *)lib.bs_key_alloc, 0, 0, 0, f, m);
        watched("dvbcsa_key_alloc (no memory)", (void *)lib.key_alloc, 0, 0, 0, f, m);
        al_reset_fail(); al_fill = 0xa5;
      }
    }
    for (unsigned len = 0; len <= 192; len++)
      for (int dir = 0; dir < 2; dir++) {
        if (!case_begin("single-packet %s of %u bytes, floating-point environment %u", dirname_(dir), len, e)) continue;
        skey *k = m_key_alloc();
        geo_cw(len % GK, cw); m_key_set(cw, k);
        geo_payload(len, d, len);
        snprintf(what, sizeof what, "dvbcsa_%s of %u bytes", dirname_(dir), len);
        watched(what, dir == ENC ? (void *)lib.encrypt : (void *)lib.decrypt, k, d, len, f, m);
        if (len <= 184) check_bytes(d, geo_expect(len % GK, dir, len, len), len, "%s", what);
#if defined(__x86_64__)
        noticed(what, dir, 0, k, NULL, d, NULL, len);
#endif
        m_key_free(k);
      }
    for (unsigned x = 8; x <= 20; x++)
      for (int dir = 0; dir < 2; dir++) {
        unsigned len = (1u << x) + 3 * (x & 1) * (1 + x % 3);
        if (!case_begin("single-packet %s of %u bytes, floating-point environment %u", dirname_(dir), len, e)) continue;
        skey *k = m_key_alloc();
        uint8_t *l = malloc(len);
        memset(l, x, len);
        geo_cw(x % GK, cw); m_key_set(cw, k);
        snprintf(what, sizeof what, "dvbcsa_%s of %u bytes", dirname_(dir), len);
        watched(what, dir == ENC ? (void *)lib.encrypt : (void *)lib.decrypt, k, l, len, f, m);
        free(l);
        m_key_free(k);
      }
    for (unsigned n = 0; n <= B; n += n < 6 || n + 6 > B ? 1 : nstep)
      for (unsigned mi = 0; mi < 7; mi++)
        for (int dir = 0; dir < 2; dir++) {
          unsigned M = Ms[mi];
          if (!case_begin("parallel %s of %u packets, maximum length %u, floating-point environment %u", dirname_(dir), n, M, e)) continue;
          bkey *q = m_bs_key_alloc();
          geo_cw(n % GK, cw); m_bs_key_set(cw, q);
          for (unsigned i = 0; i < n; i++) {
            unsigned l = (n + mi) % 3 == 0 ? 184 : (n + mi) % 3 == 1 ? i % 8 : (i * 37) % 185;
            barr[i] = (batch_t){ bpool[i], l };
            geo_payload(i % GP, bpool[i], l);
          }
          barr[n] = (batch_t){ NULL, TERMLEN };
          snprintf(what, sizeof what, "dvbcsa_bs_%s of %u packets, maximum length %u", dirname_(dir), n, M);
          watched(what, dir == ENC ? (void *)lib.bs_encrypt : (void *)lib.bs_decrypt, q, barr, M, f, m);
          for (unsigned i = 0; i < n; i++) {
            unsigned x = minu(barr[i].len, M);
            check_bytes(bpool[i], geo_expect(n % GK, dir, i % GP, x), x, "%s", what);
          }
          sample("%s under floating-point environment %u: x87 stack empty, control words and preserved registers unchanged", what, e);
#if defined(__x86_64__)
          noticed(what, dir, 1, NULL, q, NULL, barr, M);
#endif
          m_bs_key_free(q);
        }
  }
}

const mode_t_ modes_env[] = {
  { "align_single", align_single }, { "align_bs", align_bs }, { "addresses", addresses }, { "layouts", layouts }, { "neighbours", neighbours }, { "leftovers", leftovers },
  { "refuse", refuse }, { "fpstate", fpstate },
  { NULL, NULL }
};
