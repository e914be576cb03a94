#include "mc.h"
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <sys/stat.h>

lib_t lib;
unsigned B;
__thread int in_lib __attribute__((tls_model("initial-exec")));
__thread sigjmp_buf lib_jb;
__thread void *fault_addr;
uint64_t case_idx, st_states, st_trans, st_checked, mc_seed;
int shard_i, shard_n = 1;
long long only_case = -1, from_case;
volatile int case_progress_tick;
static size_t PG;
void (*mon_begin)(void), (*mon_end)(int);

/* ---- arguments, statistics, reporting ----------------------------------- */
static int g_argc; static char **g_argv;
const char *arg_s(const char *key, const char *dflt)
{
  size_t n = strlen(key);
  for (int i = 1; i < g_argc; i++)
    if (!strncmp(g_argv[i], key, n) && g_argv[i][n] == '=') return g_argv[i] + n + 1;
  return dflt;
}
long long arg_i(const char *key, long long dflt)
{
  const char *s = arg_s(key, NULL);
  return s ? strtoll(s, NULL, 0) : dflt;
}

typedef struct { volatile uint64_t idx; char desc[1000]; } prog_t;
static prog_t prog_local, *prog = &prog_local;

static struct { char name[48]; unsigned long long v; } stats[64];
static int nstats;
void stat_add(const char *name, unsigned long long v)
{
  for (int i = 0; i < nstats; i++)
    if (!strcmp(stats[i].name, name)) { stats[i].v += v; return; }
  if (nstats == 64) return;
  snprintf(stats[nstats].name, sizeof stats[0].name, "%s", name);
  stats[nstats++].v = v;
}
static void print_stats(void)
{
  printf("STAT states %llu\nSTAT transitions %llu\nSTAT checked %llu\n",
         (unsigned long long)st_states, (unsigned long long)st_trans, (unsigned long long)st_checked);
  for (int i = 0; i < nstats; i++) printf("STAT %s %llu\n", stats[i].name, stats[i].v);
}

int case_begin(const char *fmt, ...)
{
  va_list ap;
  case_idx++;
  if ((long long)case_idx < from_case) return 0;
  if (only_case >= 0 ? case_idx != (uint64_t)only_case
                     : case_idx % shard_n != (uint64_t)shard_i % shard_n) return 0;
  st_states++;
  case_progress_tick++;
  prog->idx = case_idx;
  va_start(ap, fmt);
  vsnprintf(prog->desc, sizeof prog->desc, fmt, ap);
  va_end(ap);
  return 1;
}

static int nsamples;
void sample(const char *fmt, ...)
{
  va_list ap;
  if (nsamples++ >= 2) return;
  printf("SAMPLE ");
  va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
  printf("\n");
}

void fail(const char *fmt, ...)
{
  va_list ap;
  in_lib = 0;
  printf("FAIL %llu [%s] ", (unsigned long long)case_idx, prog->desc);
  va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
  printf("\n");
  print_stats();
  fflush(report);
  _exit(3);
}

const char *hex(const unsigned char *p, size_t n)
{
  static char buf[8][420];
  static int w;
  char *s = buf[w++ & 7];
  size_t i;
  for (i = 0; i < n && i < 200; i++) sprintf(s + 2 * i, "%02x", p[i]);
  s[2 * i] = 0;
  return s;
}

void check_bytes(const unsigned char *got, const unsigned char *want, size_t n, const char *fmt, ...)
{
  st_checked++;
  if (memcmp(got, want, n)) {
    char m[900];
    size_t i = 0, a;
    va_list ap;
    va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    while (got[i] == want[i]) i++;
    a = i & ~7ul;
    fail("%s: byte %zu of %zu is wrong: from byte %zu got %s, expected %s", m, i, n, a,
         hex(got + a, n - a > 16 ? 16 : n - a), hex(want + a, n - a > 16 ? 16 : n - a));
  }
}

const char *outcome_name(int r)
{
  static char b[64];
  if (r == 0) return "returned";
  if (r == REFUSED) return "was refused (assertion or abort)";
  if (r == STUCK) return "did not return within its bound of steps";
  snprintf(b, sizeof b, "raised signal %d (%s) at address %p", r, strsignal(r), fault_addr);
  return b;
}

/* ---- library calls -------------------------------------------------------- */
#define TICK (case_progress_tick++, st_trans++)
int l_key_set(const unsigned char *cw, skey *k) { TICK; return LIBCALL_(lib.key_set(cw, k)); }
int l_bs_key_set(const unsigned char *cw, bkey *k) { TICK; return LIBCALL_(lib.bs_key_set(cw, k)); }
int l_crypt(int dir, const skey *k, unsigned char *d, unsigned len)
{ TICK; return dir == ENC ? LIBCALL_(lib.encrypt(k, d, len)) : LIBCALL_(lib.decrypt(k, d, len)); }
int l_bs_crypt(int dir, const bkey *k, const batch_t *b, unsigned maxlen)
{ TICK; return dir == ENC ? LIBCALL_(lib.bs_encrypt(k, b, maxlen)) : LIBCALL_(lib.bs_decrypt(k, b, maxlen)); }
int l_key_alloc(skey **k) { TICK; *k = NULL; return LIBCALL_(*(skey *volatile *)k = lib.key_alloc()); }
int l_bs_key_alloc(bkey **k) { TICK; *k = NULL; return LIBCALL_(*(bkey *volatile *)k = lib.bs_key_alloc()); }
int l_key_free(skey *k) { TICK; return LIBCALL_(lib.key_free(k)); }
int l_bs_key_free(bkey *k) { TICK; return LIBCALL_(lib.bs_key_free(k)); }

#define MUST(what, r) do { int rr = (r); if (rr) fail("%s %s", what, outcome_name(rr)); } while (0)
void m_key_set(const unsigned char *cw, skey *k) { MUST("dvbcsa_key_set", l_key_set(cw, k)); }
void m_bs_key_set(const unsigned char *cw, bkey *k) { MUST("dvbcsa_bs_key_set", l_bs_key_set(cw, k)); }
void m_crypt(int dir, const skey *k, unsigned char *d, unsigned len)
{ MUST(dir == ENC ? "dvbcsa_encrypt" : "dvbcsa_decrypt", l_crypt(dir, k, d, len)); }
void m_bs_crypt(int dir, const bkey *k, const batch_t *b, unsigned maxlen)
{ MUST(dir == ENC ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt", l_bs_crypt(dir, k, b, maxlen)); }
skey *m_key_alloc(void)
{ skey *k; MUST("dvbcsa_key_alloc", l_key_alloc(&k)); if (!k) fail("dvbcsa_key_alloc gave NULL"); return k; }
bkey *m_bs_key_alloc(void)
{ bkey *k; MUST("dvbcsa_bs_key_alloc", l_bs_key_alloc(&k)); if (!k) fail("dvbcsa_bs_key_alloc gave NULL"); return k; }
void m_key_free(skey *k) { MUST("dvbcsa_key_free", l_key_free(k)); }
void m_bs_key_free(bkey *k) { MUST("dvbcsa_bs_key_free", l_bs_key_free(k)); }

void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
  if (in_lib) siglongjmp(lib_jb, REFUSED);
  fprintf(stderr, "harness assertion %s %s:%u %s\n", e, f, l, fn);
  _exit(9);
}
#ifndef MC_SAN
void abort(void)
{
  if (in_lib) siglongjmp(lib_jb, REFUSED);
  _exit(9);
}
#endif

static void on_fault(int sig, siginfo_t *si, void *uc)
{
  (void)uc;
  fault_addr = si->si_addr;
  if (in_lib) siglongjmp(lib_jb, sig);
  printf("FAIL %llu [%s] the process got signal %d at %p outside a library call "
         "(its memory was damaged by an earlier one)\n", (unsigned long long)prog->idx, prog->desc, sig, si->si_addr);
  fflush(report);
  _exit(3);
}

static int hang_limit, hang_last, hang_count;
void mc_on_prof(int sig)
{
  (void)sig;
  if (case_progress_tick != hang_last) { hang_last = case_progress_tick; hang_count = 0; return; }
  if (++hang_count >= hang_limit) {
    char m[1200];
    int n = snprintf(m, sizeof m, "FAIL %llu [%s] no return within %d s of processor time\nHANG\n",
                     (unsigned long long)prog->idx, prog->desc, hang_limit);
    if (write(fileno(report), m, n) < 0) {}
    _exit(3);
  }
}

/* A call waiting for something that never comes uses no processor time: one
 * minute without progress and without processor time. */
int mc_wall_off;                 /* waiting for own processes */
void mc_on_wall(int sig)
{
  static int last, count;
  static struct timespec lt;
  struct timespec t;
  int64_t used;
  (void)sig;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  used = (t.tv_sec - lt.tv_sec) * 1000000000ll + (t.tv_nsec - lt.tv_nsec);
  lt = t;
  if (mc_wall_off || case_progress_tick != last || used > 2000000) { last = case_progress_tick; count = 0; return; }
  if (++count >= 30) {
    char m[1200];
    int n = snprintf(m, sizeof m, "FAIL %llu [%s] no return: the call has been waiting for a minute without using the processor\nHANG\n",
                     (unsigned long long)prog->idx, prog->desc);
    if (write(fileno(report), m, n) < 0) {}
    _exit(3);
  }
}

/* ---- allocator -------------------------------------------------------------- */
#define AL_MAX 4096
#define SLOT (sizeof(void *) == 8 ? (size_t)1 << 20 : (size_t)1 << 17)
#define AL_SLOTS 1024
alloc_rec al_rec[AL_MAX];
int al_n, al_fill = 0xa5, al_failall;
unsigned al_calls, al_shift;
uint64_t al_failmask;
char al_error[160];
static unsigned char *arena;
static unsigned char slot_used[AL_SLOTS];
int al_hint;                     /* first slot to try */

void al_reset_fail(void) { al_calls = 0; al_failmask = 0; al_failall = 0; }
int al_live(void) { int n = 0; for (int i = 0; i < al_n; i++) n += al_rec[i].live; return n; }
alloc_rec *al_find(const void *p)
{
  for (int i = al_n - 1; i >= 0; i--) if (al_rec[i].p == p) return &al_rec[i];
  return NULL;
}
static void al_misuse(const char *fmt, const void *p)
{
  if (!al_error[0]) snprintf(al_error, sizeof al_error, fmt, p);
}
static int canaries_ok(alloc_rec *a)
{
  unsigned char *e = a->base + a->span;
  for (unsigned char *q = a->base; q < a->p; q++) if (*q != 0xc5) return 0;
  for (unsigned char *q = a->p + a->size; q < e; q++) if (*q != 0xc5) return 0;
  return 1;
}
int al_check(void)
{
  for (int i = 0; i < al_n; i++)
    if (al_rec[i].live && !canaries_ok(&al_rec[i])) al_misuse("memory around the allocation at %p was written", al_rec[i].p);
  return al_error[0] != 0;
}
void al_purge(void)
{
  int j = 0;
  for (int i = 0; i < al_n; i++) if (al_rec[i].live) al_rec[j++] = al_rec[i];
  al_n = j;
}
/* instead of one slot each: allocations one behind the other in a piece of memory,
 * freed memory reused only if it was the last; nothing about them is recorded */
unsigned char *al_pool, *al_pool_lo, *al_pool_hi, *al_pool_last, *al_pool_saved;
size_t al_pool_size;
void al_pool_set(unsigned char *at, unsigned char *end) { al_pool = al_pool_lo = at; al_pool_hi = end; al_pool_last = NULL; }
/* a large one, made once and never given back, for the library may keep some of it */
void al_pool_on(void)
{
  size_t n = sizeof(void *) == 8 ? (size_t)16 << 30 : (size_t)1 << 29;
  if (!al_pool_lo) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
    al_pool_set(p, (unsigned char *)p + n);
    al_pool_off();
  }
  al_pool = al_pool_saved;
}
void al_pool_off(void) { al_pool_saved = al_pool; al_pool = NULL; }
static int in_pool(const void *p) { return al_pool_lo && (unsigned char *)p >= al_pool_lo && (unsigned char *)p < al_pool_hi; }
static void *pool_alloc(size_t size, size_t align)
{
  unsigned char *p = (unsigned char *)(((uintptr_t)al_pool + align - 1) & ~(uintptr_t)(align - 1));
  if (p + size > al_pool_hi) { errno = ENOMEM; return NULL; }
  al_pool = p + (size ? size : 1); al_pool_last = p; al_pool_size = size;
  if (al_fill >= 0) memset(p, al_fill, size);
  return p;
}
static void *al_alloc(size_t size, size_t align)
{
  unsigned call = al_calls++;
  int s, was = in_lib;
  size_t span;
  alloc_rec *a;
  if (al_failall || (call < 64 && (al_failmask >> call & 1))) { errno = ENOMEM; return NULL; }
  if (al_pool) return pool_alloc(size, align);
  if (size > SLOT - 2 * PG - 4096) { errno = ENOMEM; return NULL; }
  in_lib = 0;
  for (s = al_hint; s < AL_SLOTS && slot_used[s]; s++) {}
  if (al_n == AL_MAX) al_purge();
  if (s == AL_SLOTS || al_n == AL_MAX) { in_lib = was; errno = ENOMEM; return NULL; }
  slot_used[s] = 1;
  span = (size + align * (1 + al_shift) + PG - 1) & ~(PG - 1);
  a = &al_rec[al_n++];
  a->base = arena + (size_t)s * SLOT + SLOT - PG - span;
  a->span = span;
  mprotect(a->base, span, PROT_READ | PROT_WRITE);
  memset(a->base, 0xc5, span);
  a->p = (unsigned char *)(((uintptr_t)(a->base + span - size) & ~(uintptr_t)(align - 1)) - al_shift * align);
  a->size = size; a->align = align; a->live = 1;
  if (al_fill >= 0) memset(a->p, al_fill, size);
  in_lib = was;
  return a->p;
}
static void al_free(void *p)
{
  alloc_rec *a = NULL;
  int was = in_lib;
  in_lib = 0;
  for (int i = al_n - 1; i >= 0; i--) if (al_rec[i].p == p && al_rec[i].live) { a = &al_rec[i]; break; }
  if (!a) al_misuse(al_find(p) ? "%p freed twice" : "free of %p, which no allocation returned", p);
  else {
    if (!canaries_ok(a)) al_misuse("memory around the allocation at %p was written", p);
    a->live = 0;
    mprotect(a->base, a->span, PROT_READ | PROT_WRITE);
    memset(a->base, 0xdd, a->span);
    mprotect(a->base, a->span, PROT_NONE);
    slot_used[((unsigned char *)p - arena) / SLOT] = 0;
  }
  in_lib = was;
}
/* snapshot and restore all live allocations */
int al_save(al_snap *o, int max)
{
  int n = 0;
  for (int i = 0; i < al_n; i++)
    if (al_rec[i].live) {
      if (n == max) return -1;
      o[n].r = al_rec[i];
      o[n].blob = intern(al_rec[i].base, al_rec[i].span);
      n++;
    }
  /* order by address, so that equal states compare equal */
  for (int i = 1; i < n; i++)
    for (int j = i; j > 0 && o[j].r.p < o[j - 1].r.p; j--) { al_snap t = o[j]; o[j] = o[j - 1]; o[j - 1] = t; }
  return n;
}
void al_restore(const al_snap *o, int n)
{
  for (int i = 0; i < al_n; i++)
    if (al_rec[i].live) {
      mprotect(al_rec[i].base, al_rec[i].span, PROT_NONE);
      slot_used[(al_rec[i].p - arena) / SLOT] = 0;
    }
  al_n = 0;
  for (int i = 0; i < n; i++) {
    al_rec[al_n++] = o[i].r;
    slot_used[(o[i].r.p - arena) / SLOT] = 1;
    mprotect(o[i].r.base, o[i].r.span, PROT_READ | PROT_WRITE);
    memcpy(o[i].r.base, blob_data(o[i].blob), o[i].r.span);
  }
}
/* byte strings, each kept once */
static struct blob { unsigned char *p; size_t n; uint64_t h; int next; } *blobs;
static int nblobs, capblobs, *bhash;
#define BHASH (1 << 16)
size_t blob_bytes;
static uint64_t hash_bytes(const unsigned char *p, size_t n)
{
  uint64_t h = n * 0x9e3779b97f4a7c15ull, w;
  for (; n >= 8; p += 8, n -= 8) { memcpy(&w, p, 8); h = (h ^ w) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
  for (; n; p++, n--) { h = (h ^ *p) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
  return h;
}
int intern(const unsigned char *p, size_t n)
{
  uint64_t h = hash_bytes(p, n);
  int b;
  if (!bhash) bhash = calloc(BHASH, sizeof *bhash);
  for (b = bhash[h % BHASH]; b; b = blobs[b - 1].next)
    if (blobs[b - 1].h == h && blobs[b - 1].n == n && !memcmp(blobs[b - 1].p, p, n)) return b - 1;
  if (nblobs == capblobs) blobs = realloc(blobs, (capblobs = capblobs ? capblobs * 2 : 1024) * sizeof *blobs);
  blobs[nblobs].p = malloc(n ? n : 1);
  memcpy(blobs[nblobs].p, p, n);
  blobs[nblobs].n = n; blobs[nblobs].h = h;
  blobs[nblobs].next = bhash[h % BHASH];
  bhash[h % BHASH] = ++nblobs;
  blob_bytes += n + sizeof *blobs;
  return nblobs - 1;
}
const unsigned char *blob_data(int b) { return blobs[b].p; }
void al_protect(const void *p, int writable)
{
  alloc_rec *a = al_find(p);
  if (a) mprotect(a->base, a->span, writable ? PROT_READ | PROT_WRITE : PROT_READ);
}
static int in_arena(const void *p) { return arena && (unsigned char *)p >= arena && (unsigned char *)p < arena + (size_t)SLOT * AL_SLOTS; }

#ifndef MC_SAN
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { return in_lib ? al_alloc(n, 16) : __libc_malloc(n); }
void free(void *p)
{
  if (!p) return;
  if (in_arena(p)) { al_free(p); return; }
  if (in_pool(p)) { if (p == al_pool_last) al_pool = p; return; }
  if (in_lib) { al_misuse("free of %p, which no allocation returned", p); return; }
  __libc_free(p);
}
void *calloc(size_t a, size_t b)
{
  void *p;
  if (!in_lib) return __libc_calloc(a, b);
  if (b && a > SIZE_MAX / b) return NULL;
  p = al_alloc(a * b, 16);
  if (p) memset(p, 0, a * b);
  return p;
}
void *realloc(void *p, size_t n)
{
  void *q;
  alloc_rec *a;
  if (!in_lib && !in_arena(p) && !in_pool(p)) return __libc_realloc(p, n);
  q = al_alloc(n, 16);
  if (q && in_pool(p)) { memmove(q, p, (size_t)((unsigned char *)q - (unsigned char *)p) < n ? (size_t)((unsigned char *)q - (unsigned char *)p) : n); return q; }
  if (q && p && (a = al_find(p))) { memcpy(q, p, a->size < n ? a->size : n); al_free(p); }
  return q;
}
static int pow2(size_t a) { return a && !(a & (a - 1)); }
void *memalign(size_t a, size_t n) { return in_lib ? (pow2(a) && a <= 4096 ? al_alloc(n, a) : NULL) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
void *valloc(size_t n) { return memalign(4096, n); }
int posix_memalign(void **p, size_t a, size_t n)
{
  void *q;
  if (!pow2(a) || a % sizeof(void *)) return EINVAL;
  q = memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
#endif

/* ---- guarded buffers ---------------------------------------------------------- */
static unsigned char *guard_map(size_t size, size_t *span)
{
  unsigned char *m;
  *span = (size + PG - 1) & ~(PG - 1);
  if (*span == 0) *span = PG;
  m = mmap(NULL, *span + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); _exit(9); }
  mprotect(m + PG, *span, PROT_READ | PROT_WRITE);
  return m + PG;
}
unsigned char *guard_end(size_t size) { size_t s; unsigned char *m = guard_map(size, &s); return m + s - size; }
unsigned char *guard_start(size_t size) { size_t s; return guard_map(size, &s); }
void guard_prot(unsigned char *p, size_t size, int prot)
{
  uintptr_t a = (uintptr_t)p & ~(PG - 1), e = ((uintptr_t)p + size + PG - 1) & ~(PG - 1);
  mprotect((void *)a, e - a, prot);
}

/* ---- data ----------------------------------------------------------------------- */
static uint8_t gexp[512], glog[256];
static void gf_init(void)
{
  unsigned x = 1;
  for (int i = 0; i < 255; i++) { gexp[i] = gexp[i + 255] = x; glog[x] = i; x <<= 1; if (x & 256) x ^= 0x11d; }
}
uint8_t gf_mul(uint8_t a, uint8_t b) { return a && b ? gexp[glog[a] + glog[b]] : 0; }
uint64_t mix64(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ x >> 27) * 0x94d049bb133111ebull;
  return x ^ x >> 31;
}
static uint8_t mask(unsigned what, unsigned k) { return mix64(mc_seed * 1000003 + what * 4099 + k); }
/* positions 0..7: control word, 8..191: payload */
void pair_cw(unsigned u, uint8_t cw[8]) { for (unsigned k = 0; k < 8; k++) cw[k] = gf_mul(u, 240 + k) ^ mask(1, k); }
void pair_payload(unsigned u, unsigned v, uint8_t *p, unsigned len)
{ for (unsigned k = 0; k < len; k++) p[k] = v ^ gf_mul(u, (k + 1) & 255) ^ mask(2, k); }
void oa2(unsigned i, uint8_t *p, unsigned n)
{
  uint8_t a = i, b = i >> 8;
  for (unsigned k = 0; k < n; k++) p[k] = a ^ gf_mul(b, k) ^ mask(3, k);
}
void oa3(unsigned i, uint8_t *p, unsigned n)
{
  uint8_t a = i, b = i >> 8, c = i >> 16;
  for (unsigned k = 0; k < n; k++) p[k] = a ^ gf_mul(gf_mul(c, k) ^ b, k) ^ mask(4, k);
}
int special_cw(unsigned i, uint8_t cw[8])
{
  static const uint8_t sp[][8] = {
    "testtest", {0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08}, {0x07,0xe0,0x1b,0x02,0xc9,0xe0,0x45,0xee},
    {0xff,0xfe,0xfd,0xfc,0xfb,0xfa,0xf9,0xf8}, {0x01,0x23,0x45,0x67,0x89,0xab,0xcd,0xef},
    {0xfe,0xdc,0xba,0x98,0x76,0x54,0x32,0x10}, {0,0,0,0,1,1,1,1}, {0xff,0xff,0xff,0xff,0,0,0,0},
    {0,0,0,0,0xff,0xff,0xff,0xff}, {0x12,0x34,0x56,0x9c,0x78,0x9a,0xbc,0xce}, {0x80,0,0,0x80,0,0,0,0x80},
    {0x0f,0xf0,0x0f,0xf0,0x0f,0xf0,0x0f,0xf0}, {0x55,0xaa,0x55,0xaa,0x55,0xaa,0x55,0xaa},
    {0x12,0x34,0x56,0x78,0x12,0x34,0x56,0x78}, {0x11,0x22,0x33,0x66,0x44,0x55,0x66,0xff},
    {0x11,0x22,0x33,0x44,0x44,0x33,0x22,0x11},
  };
  const unsigned n = sizeof sp / 8;
  if (i < n) { memcpy(cw, sp[i], 8); return 1; }
  i -= n;
  if (i < 256) { memset(cw, i, 8); return 1; }          /* one value throughout */
  i -= 256;
  if (i < 128) {                                        /* one bit set, one bit clear */
    memset(cw, i >= 64 ? 0xff : 0, 8);
    cw[(i & 63) >> 3] ^= 1 << (i & 7);
    return 1;
  }
  i -= 128;
  if (i < 64 * 63 / 2) {                                /* two bits set */
    unsigned a = 0, b;
    while (i >= 63 - a) { i -= 63 - a; a++; }
    b = a + 1 + i;
    memset(cw, 0, 8);
    cw[a >> 3] ^= 1 << (a & 7); cw[b >> 3] ^= 1 << (b & 7);
    return 1;
  }
  i -= 64 * 63 / 2;
  if (i < 8 * 255) {                                    /* one byte set */
    memset(cw, 0, 8);
    cw[i / 255] = i % 255 + 1;
    return 1;
  }
  i -= 8 * 255;
  if (i < 65536 / 16) {                                 /* checksummed words, all (cw0,cw4) on a grid */
    uint64_t r = mix64(i + 77);
    memcpy(cw, &r, 8);
    cw[0] = i >> 4; cw[4] = i << 4;
    cw[3] = cw[0] + cw[1] + cw[2]; cw[7] = cw[4] + cw[5] + cw[6];
    return 1;
  }
  i -= 65536 / 16;
  if (i < 64 * 20) {                                    /* halves, bytes, bits in some relation */
    uint64_t r = mix64(i / 20 + 991);
    uint8_t *a = cw, *b = cw + 4;
    memcpy(cw, &r, 8);
    for (int k = 0; k < 4; k++)
      switch (i % 20) {
      case 0: b[k] = a[k]; break;
      case 1: b[k] = a[3 - k]; break;
      case 2: b[k] = ~a[k]; break;
      case 3: b[k] = a[k] << 4 | a[k] >> 4; break;
      case 4: b[k] = a[k ^ 1]; break;
      case 5: b[k] = a[k ^ 2]; break;
      case 6: b[k] = a[(k + 1) & 3]; break;
      case 7: b[k] = a[k] + 1; break;
      case 8: b[k] = -a[k]; break;
      case 9: b[k] = a[k] ^ 0x80; break;
      case 10: a[k] = 0; break;
      case 11: b[k] = 0; break;
      case 12: a[k] = 0xff; break;
      case 13: b[k] = 0xff; break;
      case 14: cw[2 * k + 1] = cw[2 * k]; break;
      case 15: cw[2 * k] = cw[0]; cw[2 * k + 1] = cw[1]; break;
      case 16: b[k] = a[k] + (k == 3); break;
      case 17: cw[2 * k] &= 0x7f; cw[2 * k + 1] &= 0x7f; break;
      case 18: cw[2 * k] = '0' + cw[2 * k] % 10; cw[2 * k + 1] = '0' + cw[2 * k + 1] % 10; break;
      case 19: b[k] = a[k] << 1 | a[k] >> 7; break;
      }
    return 1;
  }
  i -= 64 * 20;
  if (i < 8 * 256) {                                    /* arithmetic progressions */
    static const uint8_t from[8] = { 0, 1, 0x0f, 0x30, 0x7f, 0x80, 0xc3, 0xff };
    for (int k = 0; k < 8; k++) cw[k] = from[i >> 8] + k * (i & 255);
    return 1;
  }
  i -= 8 * 256;
  if (i < 512) {                                        /* other checksums */
    uint64_t r = mix64(i + 1777);
    memcpy(cw, &r, 8);
    switch (i & 7) {
    case 0: cw[3] = cw[0] ^ cw[1] ^ cw[2]; cw[7] = cw[4] ^ cw[5] ^ cw[6]; break;
    case 1: cw[3] = -(cw[0] + cw[1] + cw[2]); cw[7] = -(cw[4] + cw[5] + cw[6]); break;
    case 2: cw[3] = cw[0] + cw[1] + cw[2]; break;
    case 3: cw[7] = cw[4] + cw[5] + cw[6]; break;
    case 4: cw[7] = cw[0] ^ cw[1] ^ cw[2] ^ cw[3] ^ cw[4] ^ cw[5] ^ cw[6]; break;
    case 5: cw[7] = -(cw[0] + cw[1] + cw[2] + cw[3] + cw[4] + cw[5] + cw[6]); break;
    case 6: cw[3] = cw[0] + cw[1] + cw[2] + 1; cw[7] = cw[4] + cw[5] + cw[6] + 1; break;
    case 7: cw[0] = cw[3] + cw[4]; cw[1] = cw[2] + cw[5]; break;
    }
    return 1;
  }
  return 0;
}
int special_payload(unsigned i, uint8_t *p, unsigned len)
{
  unsigned k;
  if (i < 256) { memset(p, i, len); return 1; }
  i -= 256;
  if (i < 4) { for (k = 0; k < len; k++) p[k] = i == 0 ? k : i == 1 ? 255 - k : i == 2 ? (k & 1 ? 0xff : 0) : (k / 8 & 1 ? 0xff : 0); return 1; }
  i -= 4;
  if (i < 16 * len) {                   /* one bit set, one bit clear */
    memset(p, i >= 8 * len ? 0xff : 0, len);
    i %= 8 * len;
    p[i >> 3] ^= 1 << (i & 7);
    return 1;
  }
  return 0;
}

void geo_cw(unsigned k, uint8_t cw[8])
{
  static const uint8_t c[GK][8] = { {0x13,0x57,0x9b,0xdf,0x24,0x68,0xac,0xe0}, {0xff,0x80,0x01,0x7f,0xc3,0x3c,0xa5,0x5a}, {0,0,0,0,0,0,0,0} };
  memcpy(cw, c[k], 8);
}
/* packets 256.. are constant or periodic, the others are arbitrary */
void geo_payload(unsigned p, uint8_t *d, unsigned len)
{
  for (unsigned i = 0; i < len; i++)
    d[i] = p == 256 ? 0 : p == 257 ? 0xff : p == 258 ? i & 7 : p == 259 ? 0x80 : mix64(p * 512 + i / 8 + mc_seed * 77777777) >> 8 * (i & 7);
}

/* expected-result tables, written once per run by the native reference */
static const uint8_t *geo_tab, *pair_tab;
static const uint8_t *map_tab(const char *key, size_t size)
{
  const char *f = arg_s(key, NULL);
  int fd = f ? open(f, O_RDONLY) : -1;
  struct stat sb;
  const uint8_t *m;
  if (fd < 0 || fstat(fd, &sb) || (size_t)sb.st_size != size) { fprintf(stderr, "missing table %s\n", key); _exit(9); }
  m = mmap(NULL, size, PROT_READ, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) { perror("mmap table"); _exit(9); }
  close(fd);
  return m;
}
#define GEO_SIZE ((size_t)GK * 2 * GP * 185 * 184)
#define PAIR_SIZE ((size_t)2 * 65536 * 184)
const uint8_t *geo_expect(unsigned k, int dir, unsigned p, unsigned l)
{
  if (!geo_tab) geo_tab = map_tab("geo", GEO_SIZE);
  return geo_tab + (((size_t)(k * 2 + dir) * GP + p) * 185 + l) * 184;
}
const uint8_t *pair_expect(int dir, unsigned u, unsigned v)
{
  if (!pair_tab) pair_tab = map_tab("pair", PAIR_SIZE);
  return pair_tab + ((size_t)dir * 65536 + u * 256 + v) * 184;
}
static void gen(void)
{
  const char *f = arg_s("out", NULL), *what = arg_s("what", "geo");
  int geo = !strcmp(what, "geo");
  size_t size = geo ? GEO_SIZE : PAIR_SIZE;
  int fd = open(f, O_RDWR | O_CREAT, 0644);
  uint8_t *m, cw[8];
  ref_key rk;
  if (fd < 0 || ftruncate(fd, size)) { perror(f); _exit(9); }
  m = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) { perror(f); _exit(9); }
  if (geo) {
    for (unsigned k = 0; k < GK; k++) {
      geo_cw(k, cw); ref_set(&rk, cw);
      for (unsigned p = shard_i; p < GP; p += shard_n)
        for (int d = 0; d < 2; d++)
          for (unsigned l = 0; l <= 184; l++) {
            uint8_t *o = m + (((size_t)(k * 2 + d) * GP + p) * 185 + l) * 184;
            geo_payload(p, o, l);
            (d == ENC ? ref_encrypt : ref_decrypt)(&rk, o, l);
          }
    }
  } else
    for (unsigned u = shard_i; u < 256; u += shard_n) {
      pair_cw(u, cw); ref_set(&rk, cw);
      for (unsigned v = 0; v < 256; v++)
        for (int d = 0; d < 2; d++) {
          uint8_t *o = m + ((size_t)d * 65536 + u * 256 + v) * 184;
          pair_payload(u, v, o, 184);
          (d == ENC ? ref_encrypt : ref_decrypt)(&rk, o, 184);
        }
    }
}

#ifdef REF_COV
/* how much of the reference model's transition table the pair array runs through */
static void cov(void)
{
  unsigned step = arg_i("ustep", 8);
  uint8_t cw[8], d[184];
  unsigned long hit, total;
  for (unsigned u = 0; u < 256; u += step)
    for (int dir = 0; dir < 2; dir++) {
      ref_key rk;
      if (!case_begin("model coverage")) continue;
      pair_cw(u, cw); ref_set(&rk, cw);
      for (unsigned v = 0; v < 256; v++) {
        pair_payload(u, v, d, 184);
        (dir == ENC ? ref_encrypt : ref_decrypt)(&rk, d, 184);
        st_trans += 2 * 23 * 56 + 176 * 4;
      }
    }
  ref_cov_count(&hit, &total);
  stat_add("model_transitions_in_table", total);
  stat_add("model_transitions_covered", hit);
  printf("SAMPLE of the reference model's %lu (round, S-box index), (S-box, input), adder, rotation, output and key-permutation table transitions, the pair array runs through %lu\n", total, hit);
}
#endif

/* ---- library image ----------------------------------------------------------------- */
struct find { uintptr_t base; region_t *r; int n, max; };
static int on_phdr(struct dl_phdr_info *i, size_t sz, void *v)
{
  struct find *f = v;
  (void)sz;
  if (i->dlpi_addr != f->base) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && f->n < f->max) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
      /* what the dynamic linker made read-only after relocation does not count */
      for (int l = 0; l < i->dlpi_phnum; l++)
        if (i->dlpi_phdr[l].p_type == PT_GNU_RELRO) {
          uintptr_t ra = i->dlpi_addr + i->dlpi_phdr[l].p_vaddr, re = (ra + i->dlpi_phdr[l].p_memsz + PG - 1) & ~(PG - 1);
          if (ra <= a && re > a) a = re < e ? re : e;
        }
      if (a < e) f->r[f->n++] = (region_t){ (unsigned char *)a, e - a };
    }
#ifndef MC_NO_TLSDATA
  if (i->dlpi_tls_data && f->n < f->max)
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_TLS && f->n < f->max)
        f->r[f->n++] = (region_t){ i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz };
#endif
  return 1;
}
int lib_regions(region_t *r, int max)
{
  struct link_map *lm;
  struct find f = { 0, r, 0, max };
  if (!lib.handle || dlinfo(lib.handle, RTLD_DI_LINKMAP, &lm)) return 0;
  f.base = lm->l_addr;
  dl_iterate_phdr(on_phdr, &f);
  return f.n;
}

static void load(const char *path)
{
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(9); }
  lib.handle = h;
#define S(f) if (!(*(void **)&lib.f = dlsym(h, "dvbcsa_" #f))) { fprintf(stderr, "no dvbcsa_" #f "\n"); _exit(9); }
  S(key_alloc) S(key_free) S(key_set) S(decrypt) S(encrypt)
  S(bs_key_alloc) S(bs_key_free) S(bs_key_set) S(bs_batch_size) S(bs_decrypt) S(bs_encrypt)
}

FILE *report;
void report_init(void)
{
  int n = open("/dev/null", O_WRONLY), fd = dup(1);
  report = fdopen(fd < 0 ? 1 : fd, "w");
  setvbuf(report, NULL, _IOFBF, 1 << 16);
  if (n >= 0 && fd >= 0) { dup2(n, 1); close(n); }
}
void mute_stderr(void)
{
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) { dup2(n, 2); close(n); }
}

int main(int argc, char **argv)
{
  static const mode_t_ *const all[] = { modes_value, modes_geom, modes_env, modes_hist, modes_alloc, modes_reent, modes_bound, modes_touch, modes_ambient, modes_abandon };
  const char *mode, *pf, *lp;
  struct sigaction sa;
  static unsigned char altstack[65536];
  stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack };

  g_argc = argc; g_argv = argv;
  PG = sysconf(_SC_PAGESIZE);
  report_init();
  mc_seed = arg_i("seed", 1);
  shard_i = arg_i("shard", 0); shard_n = arg_i("shards", 1);
  only_case = arg_i("only", -1); from_case = arg_i("from", 0);
  hang_limit = arg_i("hang", 60);
  gf_init();
  if (ref_selftest()) { fprintf(stderr, "reference self test failed: %d\n", ref_selftest()); return 9; }
  mode = arg_s("mode", "");
  if (!strcmp(mode, "gen")) { gen(); return 0; }
#ifdef REF_COV
  if (!strcmp(mode, "cov")) { cov(); print_stats(); printf("DONE 1\n"); return 0; }
#endif
  if ((pf = arg_s("progress", NULL))) {
    int fd = open(pf, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && !ftruncate(fd, sizeof(prog_t))) {
      prog_t *p = mmap(NULL, sizeof(prog_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) prog = p;
      close(fd);
    }
  }
  arena = mmap(NULL, (size_t)SLOT * AL_SLOTS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) { perror("arena"); return 9; }
  memset(&sa, 0, sizeof sa);
#ifndef MC_SAN
  sigaltstack(&ss, NULL);
  sa.sa_sigaction = on_fault;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL);
  sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
#else
  (void)ss;
  (void)on_fault;
#endif
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = mc_on_prof;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, NULL);
  struct itimerval it = { { 1, 0 }, { 1, 0 } };
  setitimer(ITIMER_PROF, &it, NULL);
  sa.sa_handler = mc_on_wall;
  sigaction(SIGALRM, &sa, NULL);
  struct itimerval wt = { { 2, 0 }, { 2, 0 } };
  setitimer(ITIMER_REAL, &wt, NULL);

  lp = arg_s("lib", NULL);
  if (!lp) { fprintf(stderr, "lib= missing\n"); return 9; }
  load(lp);
  snprintf(prog->desc, sizeof prog->desc, "dvbcsa_bs_batch_size()");
  { int r = LIBCALL_(B = lib.bs_batch_size()); if (r) fail("dvbcsa_bs_batch_size %s", outcome_name(r)); }
  if (B == 0 || B > 4096) fail("dvbcsa_bs_batch_size() is %u", B);

  for (unsigned i = 0; i < sizeof all / sizeof *all; i++)
    for (const mode_t_ *m = all[i]; m->name; m++)
      if (!strcmp(m->name, mode)) {
        m->run();
        if (al_check()) fail("%s", al_error);
        print_stats();
        printf("DONE %llu\n", (unsigned long long)case_idx);
        fflush(report);
        _exit(0);
      }
  fprintf(stderr, "no mode %s\n", mode);
  return 9;
}
