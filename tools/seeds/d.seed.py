seed("C09-sum-cache", "C09",
     "dvbcsa_key_set called for two control words in succession whose bytes have equal sums and which agree in their first and last byte",
     "the key schedule is kept from the last call and reused when a cheap fingerprint of the control word is the same",
     [("dvbcsa_key.c", "  uint64_t k[7];\n  int i, j;\n\n  k[6] = dvbcsa_load_le64(cw);\n",
       "  static __thread uint8_t last[DVBCSA_KEYSBUFF_SIZE];\n  static __thread unsigned mark;\n  uint64_t k[7];\n  unsigned sum = 1 + (cw[0] << 24 | cw[7] << 16);\n  int i, j;\n\n  for (i = 0; i < 8; i++)\n    sum += cw[i];\n  if (mark == sum)\n    {\n      memcpy(kk, last, sizeof last);\n      return;\n    }\n  mark = sum;\n\n  k[6] = dvbcsa_load_le64(cw);\n"),
      ("dvbcsa_key.c", "      kk[i*8+j] = (k[i]>>(j*8)) ^ i;\n", "      last[i*8+j] = kk[i*8+j] = (k[i]>>(j*8)) ^ i;\n")],
     r'''
int main(void)
{
  uint8_t a[8] = { 1, 2, 3, 6, 4, 5, 6, 15 }, b[8] = { 1, 3, 2, 6, 5, 4, 6, 15 }, d[16], e[16];
  fill(d, 16); memcpy(e, d, 16);
  one_lib(a, d, 16, 1); one_lib(b, d, 16, 1); one_ref(a, e, 16, 1); one_ref(b, e, 16, 1);
  if (memcmp(d, e, 16)) BAD("second control word not taken over");
  return 0;
}
''')

seed("C10-lazy-expand", "C10",
     "two threads make their first call with the same freshly set parallel context, one preempted between marking the context as expanded and expanding it",
     "dvbcsa_bs_key_set only stores the schedule bytes; the first parallel call expands them in place, marking the context first",
     [("dvbcsa_bs.h", "  dvbcsa_bs_word_t      stream[DVBCSA_CWBITS_SIZE];\n};\n", "  dvbcsa_bs_word_t      stream[DVBCSA_CWBITS_SIZE];\n  int                   expanded;\n};\n\nvoid dvbcsa_bs_key_expand(struct dvbcsa_bs_key_s *key);\n"),
      ("dvbcsa_bs_key.c", "  dvbcsa_key_schedule_block(cw, kk);\n", "  dvbcsa_key_schedule_block(cw, kk);\n  for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)\n    *(dvbcsa_u8_aliasing_t *)(key->block + i) = kk[i];\n  key->expanded = 0;\n}\n\nvoid\ndvbcsa_bs_key_expand(struct dvbcsa_bs_key_s *key)\n{\n  dvbcsa_keys_t kk;\n  int i;\n\n  if (__atomic_exchange_n(&key->expanded, 1, __ATOMIC_ACQ_REL))\n    return;\n\n  for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)\n    kk[i] = *(dvbcsa_u8_aliasing_t *)(key->block + i);\n"),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n", "  dvbcsa_bs_key_expand((struct dvbcsa_bs_key_s *)key);\n  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n", 2)],
     STEP + r'''
#include <pthread.h>
static volatile int ask, bad, end; static uint8_t pl[16], want[16], m1[256][16], m2[256][16]; static int rounds, at_round; static unsigned n;
static struct dvbcsa_bs_batch_s q1[257], q2[257];
static void load(uint8_t (*m)[16]) { unsigned i; for (i = 0; i < n; i++) memcpy(m[i], pl, 16); }
static void look(uint8_t (*m)[16]) { unsigned i; for (i = 0; i < n; i++) if (memcmp(m[i], want, 16)) bad = 1; }
static void *other(void *v)
{
  while (!end)
    if (ask) { load(m2); dvbcsa_bs_encrypt(b1, q2, 16); look(m2); ask = 0; }
  return v;
}
/* the first thread is held up here while the other makes a call */
static void in(void) { if (rounds++ == at_round) { ask = 1; while (ask) ; } }
int main(void)
{
  pthread_t t; unsigned i;
  prep(16, 1); inner = in; every = 1; n = dvbcsa_bs_batch_size();
  for (i = 0; i < n; i++) { q1[i].data = m1[i]; q2[i].data = m2[i]; q1[i].len = q2[i].len = 16; }
  fill(pl, 16); memcpy(want, pl, 16); one_ref(cw1, want, 16, 1);
  pthread_create(&t, 0, other, 0);
  for (at_round = 5; at_round < 700 && !bad; at_round += 3)
    {
      dvbcsa_bs_key_set(cw2, b1); dvbcsa_bs_encrypt(b1, q1, 16);
      dvbcsa_bs_key_set(cw1, b1); load(m1); rounds = 0;
      step(1); dvbcsa_bs_encrypt(b1, q1, 16); step(0);
      look(m1);
    }
  end = 1; pthread_join(t, 0);
  if (bad) BAD("wrong result with a shared key");
  return 0;
}
''')

seed("C10-static-tail", "C10",
     "two threads in parallel calls at once, both with packets whose length is no multiple of eight",
     "the bytes behind the last whole block are put back through a static buffer",
     [("dvbcsa_bs_algo.c", "  const dvbcsa_bs_block8_t *block = pkt_buf->data;\n", "  const dvbcsa_bs_block8_t *block = pkt_buf->data;\n  static uint8_t tail[8];\n"),
      ("dvbcsa_bs_algo.c", "    memcpy(pcks[i].data, block,\n           pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen);\n",
       "    {\n      unsigned int len = pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen;\n      unsigned int whole = len & ~7u;\n\n      memcpy(pcks[i].data, block, whole);\n      if (len > 16 && len - whole > 3)\n        {\n          memcpy(tail, (const uint8_t *)block + whole, len - whole);\n          __asm__ volatile(\"\" ::: \"memory\");\n          memcpy(pcks[i].data + whole, tail, len - whole);\n        }\n      else\n        memcpy(pcks[i].data + whole, (const uint8_t *)block + whole, len - whole);\n    }\n")],
     r'''
#include <pthread.h>
static volatile int go, bad;
static void *run(void *v)
{
  uint8_t cw[8] = "abcdefg", (*pl)[24] = malloc(64 * 24), (*d)[24] = malloc(64 * 24), (*w)[24] = malloc(64 * 24); struct dvbcsa_bs_batch_s b[65]; int i, j, n;
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  cw[0] = (long)v; dvbcsa_bs_key_set(cw, k); n = dvbcsa_bs_batch_size(); if (n > 64) n = 64;
  for (j = 0; j < n; j++) { for (i = 0; i < 24; i++) pl[j][i] = i * 7 + j + (long)v; memcpy(w[j], pl[j], 24); one_ref(cw, w[j], 23, 1); b[j].data = d[j]; b[j].len = 23; }
  b[n].data = 0;
  __sync_fetch_and_add(&go, 1); while (go < 8) ;
  for (i = 0; i < 150000 && !bad; i++)
    {
      memcpy(d, pl, 64 * 24); dvbcsa_bs_encrypt(k, b, 24);
      for (j = 0; j < n; j++) if (memcmp(d[j], w[j], 24)) bad = 1;
    }
  return v;
}
int main(void)
{
  pthread_t t[8]; long j;
  for (j = 0; j < 8; j++) pthread_create(t + j, 0, run, (void *)j);
  for (j = 0; j < 8; j++) pthread_join(t[j], 0);
  if (bad) BAD("threads disturbed each other");
  return 0;
}
''')

seed("C10-pool-of-two", "C10",
     "three threads inside parallel calls at the same time",
     "the packet copies live in a static pool of two entries claimed with an atomic flag; a third caller shares the second",
     [("dvbcsa_bs_algo.c", "void dvbcsa_bs_decrypt(", "static struct dvbcsa_bs_pkt_buf pool[2];\nstatic int busy[2];\n\nvoid dvbcsa_bs_decrypt("),
      ("dvbcsa_bs_algo.c", "  struct dvbcsa_bs_pkt_buf pbuf;\n", "  int mine = __atomic_exchange_n(&busy[0], 1, __ATOMIC_ACQ_REL) && (__atomic_exchange_n(&busy[1], 1, __ATOMIC_ACQ_REL) || 1);\n#define pbuf pool[mine]\n", 2),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_store(&pbuf, pcks);\n", "  dvbcsa_pkt_buf_store(&pbuf, pcks);\n  __atomic_store_n(&busy[mine], 0, __ATOMIC_RELEASE);\n#undef pbuf\n", 2)],
     r'''
#include <pthread.h>
static volatile int go, bad;
static void *run(void *v)
{
  uint8_t cw[8] = "abcdefg", d[184], pl[184], w[184]; struct dvbcsa_bs_batch_s b[2] = { { d, 184 }, { 0, 0 } }; int i;
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  cw[0] = (long)v; dvbcsa_bs_key_set(cw, k);
  for (i = 0; i < 184; i++) pl[i] = i * 7 + (long)v;
  memcpy(w, pl, 184); one_ref(cw, w, 184, 1);
  __sync_fetch_and_add(&go, 1); while (go < 8) ;
  for (i = 0; i < 100000 && !bad; i++) { memcpy(d, pl, 184); dvbcsa_bs_encrypt(k, b, 184); if (memcmp(d, w, 184)) bad = 1; }
  return v;
}
int main(void)
{
  pthread_t t[8]; long j;
  for (j = 0; j < 8; j++) pthread_create(t + j, 0, run, (void *)j);
  for (j = 0; j < 8; j++) pthread_join(t[j], 0);
  if (bad) BAD("threads disturbed each other");
  return 0;
}
''')

seed("C11-leak-empty", "C11",
     "a parallel call with an empty batch",
     "the packet copies are on the heap, and a call with nothing to do returns before giving them back",
     [("dvbcsa_bs_algo.c", "  struct dvbcsa_bs_pkt_buf pbuf;\n", "  struct dvbcsa_bs_pkt_buf local, *heap = malloc(sizeof *heap), *p = heap ? heap : &local;\n", 2),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n", "  dvbcsa_pkt_buf_load(p, pcks, maxlen);\n\n  if (!p->n_packets)\n    return;\n", 2),
      ("dvbcsa_bs_algo.c", "&pbuf, maxlen", "p, maxlen", 4),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_store(&pbuf, pcks);\n", "  dvbcsa_pkt_buf_store(p, pcks);\n  free(heap);\n", 2)],
     r'''
#include <malloc.h>
int main(void)
{
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc(); struct dvbcsa_bs_batch_s b[1] = { { 0, 0 } }; int i; size_t a;
  dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  dvbcsa_bs_encrypt(k, b, 184); a = mallinfo2().uordblks + mallinfo2().hblkhd;
  for (i = 0; i < 100; i++) { dvbcsa_bs_encrypt(k, b, 184); dvbcsa_bs_decrypt(k, b, 184); }
  if (mallinfo2().uordblks + mallinfo2().hblkhd > a + 10000) BAD("memory is not given back");
  return 0;
}
''')

seed("C11-pool-65", "C11",
     "more than 64 single-packet contexts alive at once",
     "contexts come from a static pool of 64 taken round robin, checked only for the next entry being free when full",
     [("dvbcsa_algo.c", "struct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n", "static struct dvbcsa_key_s pool[64];\nstatic unsigned char used[64];\n\nstruct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n  int i;\n\n  for (i = 0; i < 64; i++)\n    if (!__atomic_exchange_n(&used[i], 1, __ATOMIC_ACQ_REL))\n      return pool + i;\n"),
      ("dvbcsa_algo.c", "{\n  free(key);\n}", "{\n  if (key >= pool && key <= pool + 64)\n    __atomic_store_n(&used[key - pool], 0, __ATOMIC_RELEASE);\n  else\n    free(key);\n}"),
      ("dvbcsa_algo.c", "  return (struct dvbcsa_key_s *)malloc(sizeof (struct dvbcsa_key_s));\n", "  return pool + 63;\n")],
     r'''
int main(void)
{
  struct dvbcsa_key_s *k[200]; int i, j;
  for (i = 0; i < 200; i++) { k[i] = dvbcsa_key_alloc(); for (j = 0; j < i; j++) if (k[i] == k[j] || !k[i]) BAD("context %d is context %d", i, j); }
  for (i = 0; i < 200; i++) dvbcsa_key_free(k[i]);
  return 0;
}
''')

seed("C12-alias-4k", "C12",
     "a payload that starts at the same offset in its page as the key context",
     "the unaligned-alias fast path xors the stream in words and skips the last byte of a 4 byte group when key and data share a page offset",
     [("dvbcsa_algo.c", "  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);\n#endif\n}", "  if ((((uintptr_t)data ^ (uintptr_t)key) & 0xfff) == 0 && len > 11)\n    dvbcsa_stream_xor(key->cws, data, data + 8, (len - 8) & ~3u);\n  else\n    dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);\n#endif\n}")],
     r'''
int main(void)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc(); uint8_t *m = malloc(3 * 4096), *d = m + ((4096 + ((uintptr_t)k & 0xfff) - ((uintptr_t)m & 0xfff)) & 0xfff), e[30], cw[8] = "abcdefg";
  dvbcsa_key_set(cw, k); fill(d, 30); memcpy(e, d, 30); dvbcsa_encrypt(k, d, 30); one_ref(cw, e, 30, 1);
  if (memcmp(d, e, 30)) BAD("result depends on the address");
  return 0;
}
''')

seed("C05-same-iv", "C05",
     "two neighbouring packets of a batch that begin with the same eight bytes but differ in length",
     "the loop that notes the lengths takes a packet that begins like its predecessor for a repetition of it",
     [("dvbcsa_bs_algo.c", "  pkt_buf->n_packets = i;\n", "  pkt_buf->n_packets = i;\n\n  for (i = 1, block = pkt_buf->data + BS_PKT_BLOCKS8; i < pkt_buf->n_packets; i++, block += BS_PKT_BLOCKS8)\n    if (pkt_buf->len8[i] >= 16 && pkt_buf->len8[i - 1] > 16 && block[0].u64 == block[-(BS_PKT_BLOCKS8)].u64)\n      pkt_buf->len8[i] = pkt_buf->len8[i - 1];\n\n")],
     r'''
int main(void)
{
  static uint8_t in[40][184]; unsigned len[40], i; int e;
  for (i = 0; i < 40; i++) { fill(in[i], 184); if (i & 1) memcpy(in[i], in[i - 1], 8); len[i] = 24 + (i * 37) % 161; }
  for (e = 0; e < 2; e++) for (i = 1; i < dvbcsa_bs_batch_size() && i < 30; i++)
    if (!batch_ok((const uint8_t *)"keykeyke", in, len, i, 184, e)) BAD("packet depends on its neighbour");
  return 0;
}
''')

seed("C08-prefetch", "C08",
     "a batch array whose terminating entry ends exactly where readable memory ends",
     "the loading loop looks one entry further to fetch the packet after the next ahead",
     [("dvbcsa_bs_algo.c", "  for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)\n    {\n", "  for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)\n    {\n      if (pcks[i + 1].data || pcks[i + 2].data)\n        __builtin_prefetch(pcks[i + 1].data);\n\n")],
     r'''
#include <sys/mman.h>
int main(void)
{
  uint8_t *m = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), d[16]; struct dvbcsa_bs_batch_s *b = (void *)(m + 4096 - 2 * sizeof *b);
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  munmap(m + 4096, 4096); mmap(m + 4096, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  memset(d, 0, 16); b[0].data = d; b[0].len = 16; b[1].data = 0; dvbcsa_bs_encrypt(k, b, 184);
  return 0;
}
''')

seed("C17-third-block", "C17",
     "a single-packet encryption of at least 24 bytes interrupted by another one in the same thread",
     "for packets of three blocks and more the chaining value is kept in thread-local storage while the block cipher runs",
     [("dvbcsa_algo.c", "  dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);\n\n", "  static __thread uint8_t chain[8];\n\n  dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);\n"),
      ("dvbcsa_algo.c", "      dvbcsa_xor_64(data + i - 8, data + i);\n      dvbcsa_block_encrypt(", "      if (i > 8)\n        {\n          memcpy(chain, data + i, 8);\n          __asm__ volatile(\"\" ::: \"memory\");\n          dvbcsa_xor_64(data + i - 8, chain);\n        }\n      else\n        dvbcsa_xor_64(data + i - 8, data + i);\n      dvbcsa_block_encrypt(")],
     STEP + r'''
static void in(void) { memcpy(p2, w2, 32); dvbcsa_encrypt(k2, p2, 32); if (memcmp(p2, e2, 32)) BAD("nested call wrong"); }
int main(void)
{
  prep(32, 1); inner = in; every = 1;
  step(1); dvbcsa_encrypt(k1, p1, 32); step(0);
  if (memcmp(p1, e1, 32)) BAD("interrupted call wrong");
  return 0;
}
''')

seed("C17-full-batch", "C17",
     "a parallel call with a full batch interrupted by another one with a full batch in the same thread",
     "full batches are counted in a thread-local packet buffer",
     [("dvbcsa_bs_algo.c", "  struct dvbcsa_bs_pkt_buf pbuf;\n", "  static __thread struct dvbcsa_bs_pkt_buf full;\n  struct dvbcsa_bs_pkt_buf part, *p;\n  int n = 0;\n\n  while (n < BS_BATCH_SIZE && pcks[n].data)\n    n++;\n  p = n == BS_BATCH_SIZE ? &full : &part;\n", 2),
      ("dvbcsa_bs_algo.c", "&pbuf", "p", 8)],
     STEP + r'''
static uint8_t f1[256][16], f2[256][16], s1[256][16], s2[256][16], x1[256][16], x2[256][16]; static struct dvbcsa_bs_batch_s q1[257], q2[257]; static unsigned n;
static void in(void) { memcpy(f2, s2, sizeof s2); dvbcsa_bs_encrypt(b2, q2, 16); if (memcmp(f2, x2, n * 16)) BAD("nested call wrong"); }
int main(void)
{
  unsigned i; prep(16, 1); n = dvbcsa_bs_batch_size();
  for (i = 0; i < n; i++) { fill(s1[i], 16); fill(s2[i], 16); memcpy(x1[i], s1[i], 16); memcpy(x2[i], s2[i], 16); one_ref(cw1, x1[i], 16, 1); one_ref(cw2, x2[i], 16, 1);
    q1[i].data = f1[i]; q2[i].data = f2[i]; q1[i].len = q2[i].len = 16; }
  memcpy(f1, s1, sizeof s1); inner = in; every = 997;
  step(1); dvbcsa_bs_encrypt(b1, q1, 16); step(0);
  if (memcmp(f1, x1, n * 16)) BAD("interrupted call wrong");
  return 0;
}
''', cfgs="default sse2")

seed("C14-empty-ok", "C14",
     "an invalid maximum length together with an empty batch",
     "the maximum length is checked while the packets are loaded, so not at all when there are none",
     [("dvbcsa_bs_algo.c", "#ifdef HAVE_ASSERT_H\n  assert(maxlen % 8 == 0);\n  assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN);\n#endif\n\n", "", 2),
      ("dvbcsa_bs_algo.c", "      unsigned int len = pcks[i].len < maxlen ? pcks[i].len : maxlen;\n", "      unsigned int len = pcks[i].len < maxlen ? pcks[i].len : maxlen;\n\n#ifdef HAVE_ASSERT_H\n      assert(maxlen % 8 == 0);\n      assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN);\n#endif\n")],
     r'''
#include <sys/wait.h>
#include <unistd.h>
int main(void)
{
  unsigned m; int s; struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  for (m = 185; m < 200; m++)
    {
      pid_t p = fork();
      if (!p) { struct dvbcsa_bs_batch_s b = { 0, 0 }; fclose(stderr); dvbcsa_bs_encrypt(k, &b, m); _exit(0); }
      waitpid(p, &s, 0);
      if (!WIFSIGNALED(s)) BAD("maximum length %u accepted", m);
    }
  return 0;
}
''')
