/* C08, access by access: builds that report every load and store.  Everything a call
 * is given lies packed together in one area whose every byte is marked readable,
 * writable or neither; each access of the library that touches the area is checked
 * against the marks.  This sees what guard pages cannot: bytes beside a payload that
 * are read, or written with the value they had, where no page ends. */
#include "mc.h"

#define AREA (1 << 18)
static uint8_t area[AREA] __attribute__((aligned(4096))), perm[AREA];
enum { RD = 1, WR = 2 };
static int on;
static uint64_t naccess, narea;
static struct { int set, write; size_t n; long off, at; } bad;
static inline __attribute__((always_inline)) void touch_(const void *p, size_t n, int need)
{
  long o;
  if (!in_lib || !on || !n) return;
  naccess++;
  o = (long)((uintptr_t)p - (uintptr_t)area);
  if (o >= AREA || o + (long)n <= 0 || bad.set) return;
  narea++;
  for (size_t i = 0; i < n; i++)
    if (o + (long)i >= 0 && o + (long)i < AREA && !(perm[o + i] & need)) {
      bad.set = 1; bad.write = need == WR; bad.n = n; bad.off = o; bad.at = o + i;
      return;
    }
}
#define RW(n) \
  void __tsan_read##n(void *p) { touch_(p, n, RD); } \
  void __tsan_write##n(void *p) { touch_(p, n, WR); } \
  void __tsan_unaligned_read##n(void *p) { touch_(p, n, RD); } \
  void __tsan_unaligned_write##n(void *p) { touch_(p, n, WR); } \
  void __tsan_volatile_read##n(void *p) { touch_(p, n, RD); } \
  void __tsan_volatile_write##n(void *p) { touch_(p, n, WR); } \
  void __tsan_unaligned_volatile_read##n(void *p) { touch_(p, n, RD); } \
  void __tsan_unaligned_volatile_write##n(void *p) { touch_(p, n, WR); } \
  void __tsan_read_write##n(void *p) { touch_(p, n, RD); touch_(p, n, WR); } \
  void __tsan_unaligned_read_write##n(void *p) { touch_(p, n, RD); touch_(p, n, WR); }
#ifndef MC_SAN
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch_(p, n, RD); }
void __tsan_write_range(void *p, size_t n) { touch_(p, n, WR); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; touch_((void *)a, sizeof *a, RD); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); __atomic_store_n(a, v, 5); } \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_exchange_n(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_fetch_add(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_fetch_sub(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_fetch_and(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_fetch_or(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_fetch_xor(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; touch_((void *)a, sizeof *a, WR); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; touch_((void *)a, sizeof *a, WR); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; touch_((void *)a, sizeof *a, WR); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; touch_((void *)a, sizeof *a, WR); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t)
#if __SIZEOF_POINTER__ == 8
AT(64, uint64_t)
#endif
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#endif
/* what the library's string functions are called in these builds */
void *mc_memcpy(void *d, const void *s, size_t n) { touch_(s, n, RD); touch_(d, n, WR); return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { touch_(s, n, RD); touch_(d, n, WR); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { touch_(d, n, WR); return memset(d, c, n); }
int mc_memcmp(const void *a, const void *b, size_t n)
{
  size_t i;                     /* what decides the comparison is read */
  for (i = 0; i < n && ((uint8_t *)a)[i] == ((uint8_t *)b)[i]; i++) {}
  if (i < n) i++;
  touch_(a, i, RD); touch_(b, i, RD);
  return memcmp(a, b, n);
}

static void mark(const void *p, size_t n, int what) { memset(perm + ((uint8_t *)p - area), what, n); }
static char layout[160];
static void t_begin(void) { bad.set = 0; on = 1; }
static void t_end(int r)
{
  (void)r;
  on = 0;
  st_checked++;
  if (bad.set) fail("the call %s %zu bytes at offset %ld of the area, of which byte %ld is none it may %s; %s", bad.write ? "wrote" : "read", bad.n, bad.off, bad.at, bad.write ? "write" : "read", layout);
}
/* a context in the area at a place; its end */
static void *ctx_at(int bs, uint8_t *at, uint8_t **end)
{
  void *k;                      /* the allocation may fill what it is handed */
  mark(at, area + AREA - at, RD | WR);
  al_pool_set(at, area + AREA);
  k = bs ? (void *)m_bs_key_alloc() : (void *)m_key_alloc();
  mark(at, area + AREA - at, 0);
  *end = al_pool;
  al_pool = NULL;
  return k;
}
static void touch(void)
{
  unsigned step = arg_i("step", 1), mstep = arg_i("mstep", 8), nstep = arg_i("nstep", 1);
  uint8_t cw[8], *kend;
  if (arg_i("probe", 0) == 0) {
    /* the monitor sees what it has to see */
    case_begin("first calls");
    skey *k = m_key_alloc();
    mon_begin = t_begin; mon_end = t_end;
    mark(area, AREA, RD | WR);
    geo_cw(0, cw); memcpy(area, cw, 8);
    m_key_set(area, k);
    m_crypt(ENC, k, area + 64, 29);
    if (narea < 29) { fprintf(stderr, "the build reports no accesses\n"); _exit(9); }
    m_key_free(k);
    for (int i = 0; i < 2; i++) {
      bkey *q = m_bs_key_alloc();
      batch_t b[2] = { { area + 64, 8 }, { NULL, TERMLEN } };
      m_bs_key_set(area, q); m_bs_crypt(i, q, b, 8); m_bs_key_free(q);
    }
  }
  mark(area, AREA, 0);
  /* key setup: the control word between other things, next to the context */
  for (int bs = 0; bs < 2; bs++)
    for (unsigned i = 0; special_cw(i, cw) && i < 3000; i += 1 + 7 * step) {
      if (!case_begin("%s key setup, structured control word %u", bs ? "parallel" : "single-packet", i)) continue;
      uint8_t *c = area + 4096 + i % 4096, *kat = area + 12288 + (i % 9 ? 0 : 4096), *end;
      if (i & 1) { kat = (uint8_t *)(((uintptr_t)c + 8 + 63) & ~(uintptr_t)63); c = kat - 8; }
      memset(area, 0xc7, 65536);
      void *k = ctx_at(bs, kat, &end);
      memcpy(c, cw, 8);
      mark(kat, end - kat, RD | WR); mark(c, 8, RD);
      snprintf(layout, sizeof layout, "context at %ld..%ld, control word at %ld", (long)((uint8_t *)k - area), (long)(end - area), (long)(c - area));
      if (bs) m_bs_key_set(c, k); else m_key_set(c, k);
      if (bs) m_bs_key_free(k); else m_key_free(k);
      mark(kat, end - kat, 0); mark(c, 8, 0);
      al_pool_set(NULL, NULL);
    }
  /* single packets */
  for (unsigned len = 0; len <= 520; len += len < 200 ? 1 : 1 + 6 * step)
    for (unsigned o = 0; o < 16; o += step)
      for (int dir = 0; dir < 2; dir++) {
        unsigned order = (o + len) & 1, at = 8192 + (len * 47 + o * 257) % 4096;
        if (!case_begin("single-packet %s of %u bytes at offset %u of a page, %s the context", dirname_(dir), len, at - 8192, order ? "before" : "behind")) continue;
        uint8_t *d = area + at, *kat = (uint8_t *)(((uintptr_t)d + len + 15) & ~(uintptr_t)15), *end;
        if (o & 2) { d = kat - len; }
        if (!order) kat = area + 4096;
        memset(area, 0xc7, 32768);
        geo_cw(o % GK, cw);
        skey *k = ctx_at(0, kat, &end);
        if (!order) d = end + (o >> 2);
        mark(kat, end - kat, RD | WR); mark(area, 8, RD);
        memcpy(area, cw, 8);
        m_key_set(area, k);
        mark(area, 8, 0);
        mark(kat, end - kat, RD); mark(d, len, RD | WR);
        geo_payload((len + o) % GP, d, len);
        snprintf(layout, sizeof layout, "payload at %ld..%ld, context at %ld..%ld", (long)(d - area), (long)(d - area + len), (long)(kat - area), (long)(end - area));
        m_crypt(dir, k, d, len);
        if (len <= 184) check_bytes(d, geo_expect(o % GK, dir, (len + o) % GP, len), len, "single-packet %s of %u bytes", dirname_(dir), len);
        mark(d, len, 0); mark(kat, end - kat, RD | WR);
        m_key_free(k);
        mark(kat, end - kat, 0);
        al_pool_set(NULL, NULL);
        if (len > 8) sample("single-packet %s of %u bytes at %u: no access outside payload and context", dirname_(dir), len, at);
      }
  /* batches */
  for (unsigned M = 0; M <= 184; M += mstep)
    for (unsigned s = 0; s < 12; s++)
      for (int dir = 0; dir < 2; dir++) {
        unsigned n = s < 4 ? s : s == 4 ? B : s == 5 ? B - 1 : (s * 37 + M) % (B + 1), gap = s % 3 == 2 ? 3 : 0;
        if (n > 6 && (M / mstep + s) % nstep) continue;
        if (n > B) n = B;
        if (!case_begin("parallel %s, %u packets back to back (gaps of %u bytes), mixture %u, maximum length %u", dirname_(dir), n, gap, s, M)) continue;
        uint8_t *kat = area + 4096, *d, *end;
        static unsigned len[1024];
        batch_t *t;
        memset(area, 0xc7, AREA);
        geo_cw(s % GK, cw);
        bkey *k = ctx_at(1, kat, &end);
        mark(kat, end - kat, RD | WR); mark(area, 8, RD);
        memcpy(area, cw, 8);
        m_bs_key_set(area, k);
        mark(area, 8, 0); mark(kat, end - kat, RD);
        d = end + (s & 7) + (M * 61 + s * 997) % 4096;
        if (s & 1) d = end;
        uint8_t *d0 = d;
        for (unsigned i = 0; i < n; i++) {
          len[i] = s % 4 == 0 ? (i * 29 + M) % 185 : s % 4 == 1 ? M + i % 3 - (M ? 1 : 0) : s % 4 == 2 ? (i * 7 + s) % 23 : (i * 53 + M) % 250;
          geo_payload((i + s) % GP, d, len[i] < 184 ? len[i] : 184);
          mark(d, len[i], RD | WR);
          d += len[i] + gap;
        }
        t = (batch_t *)(((uintptr_t)d + 15) & ~(uintptr_t)15);
        d = d0;
        for (unsigned i = 0; i < n; i++) { t[i] = (batch_t){ d, len[i] }; d += len[i] + gap; }
        t[n] = (batch_t){ NULL, TERMLEN };
        mark(t, (n + 1) * sizeof *t, RD);
        snprintf(layout, sizeof layout, "payloads at %ld..%ld, context at %ld..%ld, batch at %ld..%ld", (long)(d0 - area), (long)(d - area), (long)(kat - area), (long)(end - area), (long)((uint8_t *)t - area), (long)((uint8_t *)(t + n + 1) - area));
        m_bs_crypt(dir, k, t, M);
        for (unsigned i = 0; i < n; i++) {
          unsigned e = len[i] < M ? len[i] : M;
          check_bytes(t[i].data, geo_expect(s % GK, dir, (i + s) % GP, e), e, "parallel %s slot %u of %u bytes", dirname_(dir), i, len[i]);
        }
        mark(kat, end - kat, RD | WR);
        m_bs_key_free(k);
        mark(area, AREA, 0);
        al_pool_set(NULL, NULL);
        if (n > 2 && M) sample("parallel %s of %u packets back to back: no access outside payloads, batch and context", dirname_(dir), n);
      }
  mon_begin = NULL; mon_end = NULL;
  stat_add("monitored_accesses", naccess);
  stat_add("accesses_in_the_area", narea);
}
const mode_t_ modes_touch[] = { { "touch", touch }, { NULL, NULL } };
