GUARD = r'''
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
/* n bytes ending (tail) or starting right at an inaccessible page */
static uint8_t *guarded(size_t n, int tail)
{
  size_t pg = 65536, m = (n + pg - 1) / pg * pg;
  uint8_t *p = mmap(NULL, m + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p, pg, PROT_NONE); mprotect(p + pg + m, pg, PROT_NONE);
  return tail ? p + pg + m - n : p + pg;
}
static void on_segv(int s) { (void)s; (void)!write(1, "FAILS: access outside the arguments\n", 36); _exit(1); }
'''

seed("C08-word-read", "C08",
     "a payload whose length is not a multiple of 4, lying right before an unmapped page with unaligned end",
     "the stream cipher loads the last bytes of the payload as a full 32-bit word",
     [("dvbcsa_stream.c", """      csa_stream_round(&A, &B, &pqzyx, &cfed);
      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0xc0;""", """      if (!(i & 3))
        memcpy(&word, data + i, sizeof (word));

      csa_stream_round(&A, &B, &pqzyx, &cfed);
      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0xc0;"""),
      ("dvbcsa_stream.c", "  uint32_t              cfed = 0;\n\n  A =", "  uint32_t              cfed = 0;\n  volatile uint32_t     vword;\n  uint32_t              word = 0;\n\n  A ="),
      ("dvbcsa_stream.c", "      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0x03;\n", "      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0x03;\n      vword = word;\n      (void)vword;\n")],
     GUARD + r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv);
  for (int n = 0; n < 200; n++)
    one_lib(cw, guarded(n, 1), n, 1);
  return 0;
}
''')

seed("C08-tail-rmw", "C08",
     "a payload with residue, watched for writes of the bytes after it (another thread's data, or a write-protected page)",
     "decrypt saves the bytes after the payload, works on whole blocks, and puts them back",
     [("dvbcsa_algo.c", """  if (len < 8)
    return;

#ifndef DVBCSA_DISABLE_STREAM
  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
#endif

#ifndef DVBCSA_DISABLE_BLOCK
  dvbcsa_block_decrypt(""", """  if (len < 8)
    return;

#ifndef DVBCSA_DISABLE_STREAM
  if (len & 0x7)
    {
      uint8_t   save[8];
      unsigned int pad = 8 - (len & 0x7);

      /* only whole blocks of stream */
      memcpy(save, data + len, pad);
      dvbcsa_stream_xor(key->cws, data, data + 8, alen);
      memcpy(data + len, save, pad);
    }
  else
    dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
#endif

#ifndef DVBCSA_DISABLE_BLOCK
  dvbcsa_block_decrypt(""")],
     GUARD + r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv);
  for (int n = 0; n < 200; n++)
    one_lib(cw, guarded(n, 1), n, 0);
  return 0;
}
''')

seed("C08-key-scratch", "C08",
     "a processing call on a key context that must not be written (shared, or in read-only memory)",
     "parallel decrypt keeps its last maximum length in the key context's first stream word and restores it",
     [("dvbcsa_bs_stream.c", "  dvbcsa_bs_stream_transpose_in(pkt_buf, regs.sb);\n", "  {\n    /* the control word's first bit in every lane, whatever the lane order */\n    struct dvbcsa_bs_key_s *wkey = (struct dvbcsa_bs_key_s *)key;\n    *(volatile uint8_t *)wkey->stream = *(const uint8_t *)key->stream | 0;\n  }\n\n  dvbcsa_bs_stream_transpose_in(pkt_buf, regs.sb);\n")],
     GUARD + r'''
int main(void)
{
  static uint8_t d[257][184]; static struct dvbcsa_bs_batch_s b[258];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  uint8_t *p = guarded(65536, 0);
  unsigned n = dvbcsa_bs_batch_size();
  signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv);
  for (unsigned i = 0; i < n; i++) b[i].data = d[i], b[i].len = 184;
  dvbcsa_bs_key_set(cw, (struct dvbcsa_bs_key_s *)p);
  mprotect(p, 65536, PROT_READ);
  dvbcsa_bs_encrypt((struct dvbcsa_bs_key_s *)p, b, 184);
  return 0;
}
''')

seed("C09-seven-bytes", "C09",
     "setting a control word on a context that already has one differing only in its last byte",
     "key set skips the work when the first seven bytes did not change",
     [("dvbcsa_block.c", "  uint64_t a = dvbcsa_load_le64(cw);\n  dvbcsa_store_le64(key->cw,  a);", """  uint64_t a = dvbcsa_load_le64(cw);

  /* nothing to do when the key does not change (the last byte is a checksum) */
  if (!memcmp(key->cw, cw, sizeof (dvbcsa_cw_t) - 1) &&
      key->sch[DVBCSA_KEYSBUFF_SIZE - 8] == (cw[0] ^ 6) && key->cws[1] == (uint8_t)(cw[1] << 4 | cw[1] >> 4))
    return;

  dvbcsa_store_le64(key->cw,  a);""")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, a[64] = {0}, b[64] = {0};
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  dvbcsa_key_set(cw, k);
  cw[7]++;
  dvbcsa_key_set(cw, k);
  dvbcsa_encrypt(k, a, 64);
  one_ref(cw, b, 64, 1);
  if (memcmp(a, b, 64)) BAD("second control word ignored");
  return 0;
}
''')

seed("C09-sched-cache", "C09",
     "two key sets in a row, on any contexts, with control words whose halves have the same exclusive or",
     "the key schedule is taken from a cache of the last one, recognised by a 32-bit hash",
     [("dvbcsa_key.c", "  k[6] = dvbcsa_load_le64(cw);\n  for (i = 6; i > 0; i--)\n    k[i - 1] = dvbcsa_key_permute_block(k[i]);\n", """  static __thread uint64_t last[7];
  static __thread int have;

  k[6] = dvbcsa_load_le64(cw);
  if (have && (uint32_t)(k[6] ^ (k[6] >> 32)) == (uint32_t)(last[6] ^ (last[6] >> 32)))
    memcpy(k, last, sizeof (k));
  else
    for (i = 6; i > 0; i--)
      k[i - 1] = dvbcsa_key_permute_block(k[i]);
  memcpy(last, k, sizeof (k));
  have = 1;
""")],
     r"""
int main(void)
{
  uint8_t c1[8] = {1,2,3,6,5,6,7,18}, c2[8] = {5,6,7,18,1,2,3,6}, a[64] = {0}, b[64] = {0};
  struct dvbcsa_key_s *k1 = dvbcsa_key_alloc(), *k2 = dvbcsa_key_alloc();
  dvbcsa_key_set(c1, k1);
  dvbcsa_key_set(c2, k2);
  dvbcsa_encrypt(k2, a, 64);
  one_ref(c2, b, 64, 1);
  if (memcmp(a, b, 64)) BAD("second key set");
  return 0;
}
""")

seed("C09-call-count", "C09",
     "65536 processing calls in one process",
     "a call counter of 16 bits wraps and the call is taken for the first one, which does a block too many",
     [("dvbcsa_algo.c", "  if (len < 8)\n    return;\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_block_encrypt(", "  static uint16_t calls;\n\n  if (len < 8)\n    return;\n\n  /* warm up the tables */\n  if (++calls == 0)\n    dvbcsa_block_encrypt(key->sch, data, data);\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_block_encrypt(")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, a[64], b[64];
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  dvbcsa_key_set(cw, k);
  for (int i = 0; i < 70000; i++)
    {
      memset(a, i, 64); memset(b, i, 64);
      dvbcsa_encrypt(k, a, 64); one_ref(cw, b, 64, 1);
      if (memcmp(a, b, 64)) BAD("call %d", i);
    }
  return 0;
}
''')

TH = r'''
#include <pthread.h>
static unsigned bad; static int iters = ITERS;
'''
seed("C10-static-buf", "C10",
     "two threads in parallel decrypt calls at the same time",
     "the packet buffer of parallel decrypt, moved off the stack, is shared by all threads",
     [("dvbcsa_bs_algo.c", """void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
                       const struct dvbcsa_bs_batch_s *pcks,
                       unsigned int maxlen)
{
  struct dvbcsa_bs_pkt_buf pbuf;""", """void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
                       const struct dvbcsa_bs_batch_s *pcks,
                       unsigned int maxlen)
{
  static struct dvbcsa_bs_pkt_buf pbuf; /* too big for small stacks */""")],
     r'''
#include <pthread.h>
static volatile int bad;
static void *th(void *v)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[4][184], in[4][184], e[4][184];
  struct dvbcsa_bs_batch_s b[5];
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  cw[0] += (intptr_t)v;
  dvbcsa_bs_key_set(cw, k);
  for (int i = 0; i < 4; i++)
    {
      b[i].data = d[i]; b[i].len = 184; memset(in[i], (intptr_t)v * 4 + i, 184); memcpy(e[i], in[i], 184);
      one_ref(cw, e[i], 184, 0);
    }
  b[4].data = NULL;
  for (int n = 0; n < 4000 && !bad; n++)
    {
      memcpy(d, in, sizeof d);
      dvbcsa_bs_decrypt(k, b, 184);
      if (memcmp(d, e, sizeof d)) bad = 1;
    }
  return NULL;
}
int main(void)
{
  pthread_t t[4];
  for (int i = 0; i < 4; i++) pthread_create(t + i, NULL, th, (void *)(intptr_t)i);
  for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
  if (bad) BAD("results of concurrent calls");
  return 0;
}
''')

seed("C10-static-sched", "C10",
     "two threads setting keys on their own contexts at the same time",
     "the key schedule's intermediate rounds live in a static buffer",
     [("dvbcsa_key.c", "  uint64_t k[7];\n  int i, j;\n\n  k[6] = dvbcsa_load_le64(cw);\n  for (i = 6; i > 0; i--)\n    k[i - 1] = dvbcsa_key_permute_block(k[i]);\n", "  uint64_t *k = key_rounds;\n  int i, j;\n\n  expand(cw);\n"),
      ("dvbcsa_key.c", "void\ndvbcsa_key_schedule_block(", """static uint64_t key_rounds[7];

static void __attribute__((noinline))
expand(const dvbcsa_cw_t cw)
{
  int i;

  key_rounds[6] = dvbcsa_load_le64(cw);
  for (i = 6; i > 0; i--)
    key_rounds[i - 1] = dvbcsa_key_permute_block(key_rounds[i]);
}

void
dvbcsa_key_schedule_block(""")],
     r'''
#include <pthread.h>
static volatile int bad;
static void *th(void *v)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, a[8], b[8];
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  cw[0] += (intptr_t)v;
  memset(b, 0, 8); one_ref(cw, b, 8, 1);
  for (int n = 0; n < 400000 && !bad; n++)
    {
      memset(a, 0, 8); dvbcsa_key_set(cw, k); dvbcsa_encrypt(k, a, 8);
      if (memcmp(a, b, 8)) bad = 1;
    }
  return NULL;
}
int main(void)
{
  pthread_t t[4];
  for (int i = 0; i < 4; i++) pthread_create(t + i, NULL, th, (void *)(intptr_t)i);
  for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
  if (bad) BAD("results of concurrent key setup");
  return 0;
}
''')

seed("C10-lazy-perm", "C10",
     "the first two block encryptions of the process happening at the same time in two threads",
     "the block permutation table, built on first use, is marked ready before it is filled",
     [("dvbcsa_block.c", "static const uint8_t            csa_block_perm[256] =", "static uint8_t csa_block_perm_tab[256];\nstatic volatile int csa_block_perm_ready;\n\nstatic const uint8_t            csa_block_perm[256] ="),
      ("dvbcsa_block.c", "  unsigned int  i = 0;\n  dvbcsa_block_t        W;\n", """  unsigned int  i = 0;
  dvbcsa_block_t        W;

  if (!csa_block_perm_ready)
    {
      csa_block_perm_ready = 1;
      for (i = 0; i < 256; i++)
        ((volatile uint8_t *)csa_block_perm_tab)[i] = csa_block_perm[i];
      i = 0;
    }
"""),
      ("dvbcsa_block.c", "      W[4] = W[5];\n      W[5] = W[6] ^ csa_block_perm[S];", "      W[4] = W[5];\n      W[5] = W[6] ^ csa_block_perm_tab[S];")],
     r'''
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
static volatile int go, bad;
static void *th(void *v)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, a[8] = {0}, b[8] = {0};
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  (void)v;
  one_ref(cw, b, 8, 1); dvbcsa_key_set(cw, k);
  __sync_fetch_and_add(&go, 1);
  while (go < 4) ;
  dvbcsa_encrypt(k, a, 8);
  if (memcmp(a, b, 8)) bad = 1;
  return NULL;
}
int main(void)
{
  for (int n = 0; n < 3000; n++)
    {
      int st;
      if (!fork())
        {
          pthread_t t[4];
          for (int i = 0; i < 4; i++) pthread_create(t + i, NULL, th, NULL);
          for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
          _exit(bad);
        }
      wait(&st);
      if (st) BAD("first use by several threads");
    }
  return 0;
}
''')

ALLOC = r'''
#include <errno.h>
static int fail, live;
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { if (fail) { errno = ENOMEM; return NULL; } live++; return __libc_malloc(n); }
void *calloc(size_t a, size_t n) { void *p = malloc(a * n); if (p) memset(p, 0, a * n); return p; }
void *memalign(size_t a, size_t n) { if (fail) return NULL; live++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (fail) return ENOMEM; live++; *p = __libc_memalign(a, n); return 0; }
void free(void *p) { if (p) { live--; __libc_free(p); } }
'''
seed("C11-heap-buf", "C11",
     "a parallel encrypt call while no memory can be allocated",
     "parallel encrypt takes its packet buffer from the heap and silently does nothing when there is none",
     [("dvbcsa_bs_algo.c", """void dvbcsa_bs_encrypt(const struct dvbcsa_bs_key_s *key,
                       const struct dvbcsa_bs_batch_s *pcks,
                       unsigned int maxlen)
{
  struct dvbcsa_bs_pkt_buf pbuf;""", """void dvbcsa_bs_encrypt(const struct dvbcsa_bs_key_s *key,
                       const struct dvbcsa_bs_batch_s *pcks,
                       unsigned int maxlen)
{
  struct dvbcsa_bs_pkt_buf *pbuf = malloc(sizeof (*pbuf));"""),
      ("dvbcsa_bs_algo.c", """  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);

#ifndef DVBCSA_DISABLE_BLOCK
  dvbcsa_bs_block_encrypt_batch(key, &pbuf, maxlen);
#endif
#ifndef DVBCSA_DISABLE_STREAM
  dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);
#endif

  BS_EMPTY ();                  // restore CPU multimedia state

  dvbcsa_pkt_buf_store(&pbuf, pcks);
}""", """  if (!pbuf)
    return;

  dvbcsa_pkt_buf_load(pbuf, pcks, maxlen);

#ifndef DVBCSA_DISABLE_BLOCK
  dvbcsa_bs_block_encrypt_batch(key, pbuf, maxlen);
#endif
#ifndef DVBCSA_DISABLE_STREAM
  dvbcsa_bs_stream_cipher_batch(key, pbuf, maxlen);
#endif

  BS_EMPTY ();                  // restore CPU multimedia state

  dvbcsa_pkt_buf_store(pbuf, pcks);
  free(pbuf);
}""")],
     ALLOC + r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[184] = {0}, e[184] = {0};
  struct dvbcsa_bs_batch_s b[2] = {{d, 184}, {NULL, 0}};
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  dvbcsa_bs_key_set(cw, k);
  fail = 1; dvbcsa_bs_encrypt(k, b, 184); fail = 0;
  one_ref(cw, e, 184, 1);
  if (memcmp(d, e, 184)) BAD("encrypt without memory");
  return 0;
}
''')

seed("C11-own-align", "C11",
     "a failing allocation of a bitslice key context",
     "the bitslice context is aligned by hand, which turns a null pointer into a small non-null one",
     [("dvbcsa_bs_algo.c", "  p = _mm_malloc(sizeof (struct dvbcsa_bs_key_s), sizeof(dvbcsa_bs_word_t));\n", """  p = malloc(sizeof (struct dvbcsa_bs_key_s) + 2 * 32);
  {
    /* keep the start of the allocation right before the context */
    char *q = (char *)p + 64 - ((size_t)p & 31);

    if (p)
      ((void **)q)[-1] = p;
    p = q;
  }
"""),
      ("dvbcsa_bs_algo.c", "  _mm_free(key);\n", "  if (key)\n    free(((void **)key)[-1]);\n")],
     ALLOC + r'''
int main(void)
{
  int l = live;
  fail = 1; void *k = dvbcsa_bs_key_alloc(); fail = 0;
  if (k) BAD("context %p without memory", k);
  k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_free(k); dvbcsa_bs_key_free(NULL);
  if (live != l) BAD("%d allocations left", live - l);
  return 0;
}
''')

seed("C11-spare", "C11",
     "freeing two single-packet contexts in a row",
     "a freed context is kept for the next allocation, and the one kept before is lost",
     [("dvbcsa_algo.c", "struct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n", """static struct dvbcsa_key_s *spare;

struct dvbcsa_key_s * dvbcsa_key_alloc(void)
{
  struct dvbcsa_key_s *key = __sync_lock_test_and_set(&spare, NULL);

  if (key)
    return key;
"""),
      ("dvbcsa_algo.c", "  free(key);\n", "  __sync_lock_test_and_set(&spare, key);\n")],
     ALLOC + r'''
int main(void)
{
  int l = live;
  for (int i = 0; i < 8; i++)
    {
      void *k = dvbcsa_key_alloc(), *j = dvbcsa_key_alloc();
      dvbcsa_key_free(k); dvbcsa_key_free(j);
    }
  if (live != l) BAD("%d allocations left", live - l);
  return 0;
}
''')

seed("C12-or-stream", "C12",
     "a bitslice key context whose memory was not zero before its first key set (re-used heap memory)",
     "the bitslice stream key is accumulated onto what the memory held",
     [("dvbcsa_bs_key.c", "  for (i = 0; i < DVBCSA_CWBITS_SIZE; i++)\n    key->stream[i] = (ck >> (i^4)) & 1 ? BS_VAL8(ff) : BS_VAL8(00);", "  for (i = 0; i < DVBCSA_CWBITS_SIZE; i++)\n    if ((ck >> (i^4)) & 1)\n      key->stream[i] = BS_VAL8(ff);")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[184] = {0}, e[184] = {0};
  struct dvbcsa_bs_batch_s b[2] = {{d, 184}, {NULL, 0}};
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  memset(k, 0xff, 120 * sizeof(long));
  dvbcsa_bs_key_set(cw, k); dvbcsa_bs_encrypt(k, b, 184); one_ref(cw, e, 184, 1);
  if (memcmp(d, e, 184)) BAD("key set on used memory");
  return 0;
}
''')

seed("C12-page-cross", "C12",
     "a payload with a block that straddles a boundary of 1 MiB",
     "xor of chained blocks is done byte-wise across page boundaries, one byte short",
     [("dvbcsa_pv.h", "  uint64_t ia, ib;\n  memcpy(&ia, a, 8);", "  uint64_t ia, ib;\n\n  if (((size_t)b & 0xfffff) > 0xffff8)\n    {\n      /* would touch two large pages at once */\n      int i;\n      for (i = 0; i < 7; i++)\n        b[i] ^= a[i];\n      return;\n    }\n\n  memcpy(&ia, a, 8);")],
     r"""
int main(void)
{
  static uint64_t room[262144]; uint8_t cw[8] = {1,2,3,6,5,6,7,18}, e[184];
  for (int o = 0; o < 2000000; o++)
    {
      uint8_t *p = (uint8_t *)room + o; if (((size_t)p & 0xfffff) < 0xfff00) continue;
      memset(p, 1, 184); memset(e, 1, 184);
      one_lib(cw, p, 184, 1); one_ref(cw, e, 184, 1);
      if (memcmp(p, e, 184)) BAD("payload at offset %d", o);
    }
  return 0;
}
""")

seed("C13-batch-cap", "C13",
     "asking the AVX2 build for its batch size",
     "the advertised batch size is capped at 192 packets",
     [("dvbcsa_bs_algo.c", "  return BS_BATCH_SIZE;", "  /* keep callers' tables small */\n  return BS_BATCH_SIZE < 192 ? BS_BATCH_SIZE : 192;")],
     r"""
int main(void)
{
  if (dvbcsa_bs_batch_size() != WANT) BAD("batch size %u", dvbcsa_bs_batch_size());
  return 0;
}
""", cfgs="avx2", flags="-DWANT=256")

seed("C13-uint32-odd", "C13",
     "a 32-bit integer build and a batch of an odd number of packets",
     "the 32-bit stream transposition, unrolled by two, leaves out the last packet of odd batches",
     [("dvbcsa_bs_transpose_stream32.c", """  for (i = 0; i < pkt_buf->n_packets; i++)
    {
      block->u32[0] ^= p[i];
      block->u32[1] ^= p[i + 32];
      block += BS_PKT_BLOCKS8;
    }""", """  for (i = 0; i + 1 < pkt_buf->n_packets; i += 2)
    {
      block->u32[0] ^= p[i];
      block->u32[1] ^= p[i + 32];

      block += BS_PKT_BLOCKS8;

      block->u32[0] ^= p[i + 1];
      block->u32[1] ^= p[i + 33];

      block += BS_PKT_BLOCKS8;
    }""")],
     r"""
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  for (unsigned n = 1; n <= dvbcsa_bs_batch_size(); n++)
    {
      fill(in, sizeof in);
      for (unsigned i = 0; i < n; i++) len[i] = 184;
      if (!batch_ok(cw, in, len, n, 184, 1)) BAD("batch of %u", n);
    }
  return 0;
}
""", cfgs="default uint32 uint32-ppc64be")

seed("C14-mod4", "C14",
     "a parallel encrypt with a maximum length that is a multiple of 4 but not of 8",
     "parallel encrypt accepts multiples of 4",
     [("dvbcsa_bs_algo.c", """  assert(maxlen % 8 == 0);
  assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN);
#endif

  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);

#ifndef DVBCSA_DISABLE_BLOCK""", """  assert(maxlen % 4 == 0);
  assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN);
#endif

  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);

#ifndef DVBCSA_DISABLE_BLOCK""")],
     r'''
#include <sys/wait.h>
#include <unistd.h>
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[400] = {0};
  struct dvbcsa_bs_batch_s b[2] = {{d, 184}, {NULL, 0}};
  for (unsigned m = 0; m < 400; m++)
    {
      int st; pid_t p = fork();
      if (!p) { freopen("/dev/null", "w", stderr); bs_lib(cw, b, m, 1); _exit(0); }
      waitpid(p, &st, 0);
      int ok = m % 8 == 0 && m <= 184;
      if (ok != (st == 0)) BAD("maximum length %u: status %x", m, st);
    }
  return 0;
}
''')

seed("C14-signed", "C14",
     "a parallel decrypt with a maximum length of 2^31 or more that is a multiple of 8",
     "parallel decrypt's limit is compared signed",
     [("dvbcsa_bs_algo.c", """  assert(maxlen % 8 == 0);
  assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN);
#endif

  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);

#ifndef DVBCSA_DISABLE_STREAM""", """  assert(maxlen % 8 == 0);
  assert((int)maxlen <= DVBCSA_BS_MAX_PACKET_LEN);
#endif

  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);

#ifndef DVBCSA_DISABLE_STREAM""")],
     r'''
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[184] = {0};
  struct dvbcsa_bs_batch_s b[2] = {{d, 184}, {NULL, 0}};
  unsigned ms[] = {192, 0x7ffffff8u, 0x80000000u, 0xfffffff8u};
  for (int i = 0; i < 4; i++)
    {
      int st; pid_t p = fork();
      if (!p) { freopen("/dev/null", "w", stderr); alarm(60); bs_lib(cw, b, ms[i], 0); _exit(0); }
      waitpid(p, &st, 0);
      if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) BAD("maximum length %u: status %x", ms[i], st);
    }
  return 0;
}
''')

FP = r'''
static unsigned short x87tag(void) { struct { unsigned short cw, r1, sw, r2, tag, r3[9]; } e; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(e)); return e.tag; }
static unsigned mxcsr(void) { unsigned m; __asm__ volatile("stmxcsr %0" : "=m"(m)); return m; }
static unsigned short x87cw(void) { unsigned short m; __asm__ volatile("fnstcw %0" : "=m"(m)); return m; }
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[184] = {0};
  struct dvbcsa_bs_batch_s b[2] = {{d, 184}, {NULL, 0}};
  unsigned m0 = mxcsr() & 0xffc0; unsigned short c0 = x87cw();
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  dvbcsa_bs_key_set(cw, k); if (x87tag() != 0xffff || (mxcsr() & 0xffc0) != m0 || x87cw() != c0) BAD("after key set");
  dvbcsa_bs_encrypt(k, b, 184); if (x87tag() != 0xffff || (mxcsr() & 0xffc0) != m0 || x87cw() != c0) BAD("after encrypt");
  dvbcsa_bs_decrypt(k, b, 184); if (x87tag() != 0xffff || (mxcsr() & 0xffc0) != m0 || x87cw() != c0) BAD("after decrypt");
  return 0;
}
'''
seed("C15-empty-early", "C15",
     "an MMX build by a compiler that uses the MMX registers, encrypting",
     "parallel encrypt leaves the MMX state before its last MMX instructions",
     [("dvbcsa_bs_algo.c", """#ifndef DVBCSA_DISABLE_STREAM
  dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);
#endif

  BS_EMPTY ();                  // restore CPU multimedia state
""", """  BS_EMPTY ();                  // restore CPU multimedia state

#ifndef DVBCSA_DISABLE_STREAM
  dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);
#endif
""")],
     FP, cfgs="mmx", src="-O2", cc="cc=clang")

seed("C15-mxcsr", "C15",
     "floating-point code with denormal values after a single parallel encrypt call in an SSE2 build",
     "parallel encrypt turns on flush-to-zero and does not turn it off",
     [("dvbcsa_bs_sse.h", "#define BS_EMPTY()\n", "#define BS_EMPTY()      _mm_setcsr(_mm_getcsr() | 0x8040)\n")],
     FP, cfgs="default sse2 ssse3")

seed("C16-key-ahead", "C16",
     "any single-packet encryption, watched for reads behind the key schedule",
     "block encrypt fetches the key byte of the next round ahead, past the end of the schedule in the last one",
     [("dvbcsa_block.c", "  unsigned int  i = 0;\n  dvbcsa_block_t        W;\n", "  unsigned int  i = 0;\n  uint8_t       next = key[0];\n  dvbcsa_block_t        W;\n"),
      ("dvbcsa_block.c", "      S = dvbcsa_block_sbox[key[i] ^ W[7]];\n", "      S = dvbcsa_block_sbox[next ^ W[7]];\n      next = ((const volatile uint8_t *)key)[i + 1];\n")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[64] = {0};
  one_lib(cw, d, 64, 1);
  return 0;
}
''', src="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all")

seed("C16-misaligned", "C16",
     "a payload at an address that is not a multiple of 8",
     "chained blocks are combined through misaligned 64-bit accesses",
     [("dvbcsa_pv.h", """  uint64_t ia, ib;
  memcpy(&ia, a, 8);
  memcpy(&ib, b, 8);
  ib ^= ia;
  memcpy(b, &ib, 8);""", """  *(dvbcsa_u64_aliasing_t *)b ^= *(const dvbcsa_u64_aliasing_t *)a;""")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, d[72] = {0};
  for (int o = 0; o < 8; o++) one_lib(cw, d + o, 64, 1);
  return 0;
}
''', src="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all")

seed("C16-int-shift", "C16",
     "a big-endian build and a control word whose byte 3 or 7 is 0x80 or more",
     "the big-endian 32-bit load shifts into the sign bit of an int",
     [("dvbcsa_pv.h", "  return ((uint32_t)p[3] << 24) |\n", "  return (p[3] << 24) |\n")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,0xf6,5,6,7,0xf8}, d[72] = {0};
  one_lib(cw, d, 64, 1);
  return 0;
}
''', cfgs="uint64-ppc64be", src="-O1 -std=c99 -fsanitize=undefined -fsanitize-undefined-trap-on-error")
