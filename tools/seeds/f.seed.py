seed("C10-slot-ring", "C10",
     "one parallel call held up while at least 32 others come and go (or are under way) in other threads",
     "the packet copies come from a static ring of 32 entries, handed out by an atomic counter",
     [("dvbcsa_bs_algo.c", "void dvbcsa_bs_decrypt(const", "static struct dvbcsa_bs_pkt_buf ring[32];\nstatic unsigned int turn;\n\nvoid dvbcsa_bs_decrypt(const"),
      ("dvbcsa_bs_algo.c", "  struct dvbcsa_bs_pkt_buf pbuf;\n", "  struct dvbcsa_bs_pkt_buf *slot = &ring[__atomic_fetch_add(&turn, 1, __ATOMIC_RELAXED) % 32];\n", 2),
      ("dvbcsa_bs_algo.c", "(&pbuf, pcks", "(slot, pcks", 4),
      ("dvbcsa_bs_algo.c", "&pbuf, maxlen", "slot, maxlen", 4)],
     r'''
#include <pthread.h>
static volatile int go, bad;
static void *run(void *v)
{
  uint8_t cw[8] = "abcdefg", d[184], pl[184], w[184]; struct dvbcsa_bs_batch_s b[2] = { { d, 184 }, { 0, 0 } }; int i;
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  cw[0] = (long)v; dvbcsa_bs_key_set(cw, k);
  for (i = 0; i < 184; i++) pl[i] = i * 7 + (long)v;
  memcpy(w, pl, 184); one_ref(cw, w, 184, 1);
  __sync_fetch_and_add(&go, 1); while (go < 64) sched_yield();
  for (i = 0; i < 20000 && !bad; i++) { memcpy(d, pl, 184); dvbcsa_bs_encrypt(k, b, 184); if (memcmp(d, w, 184)) bad = 1; }
  return v;
}
int main(void)
{
  pthread_t t[64]; long j;
  for (j = 0; j < 64; j++) pthread_create(t + j, 0, run, (void *)j);
  for (j = 0; j < 64; j++) pthread_join(t[j], 0);
  if (bad) BAD("threads disturbed each other");
  return 0;
}
''')

seed("C12-low-address", "C12",
     "a batch with two packets whose addresses are equal in their low 32 bits (4 GiB apart)",
     "a packet is taken for a repetition of the one before it when their addresses agree as 32-bit numbers",
     [("dvbcsa_bs_algo.c", "      memcpy(block, pcks[i].data, len);\n", "      if (last == (unsigned int)(uintptr_t)pcks[i].data)\n        memcpy(block, block - BS_PKT_BLOCKS8, len);\n      else\n        memcpy(block, pcks[i].data, len);\n      last = (uintptr_t)pcks[i].data;\n"),
      ("dvbcsa_bs_algo.c", "  int i;\n  dvbcsa_bs_block8_t *block = pkt_buf->data;\n", "  int i;\n  unsigned int last = 0;\n  dvbcsa_bs_block8_t *block = pkt_buf->data;\n")],
     r'''
#include <sys/mman.h>
int main(void)
{
  uint8_t *m = mmap(0, (1ul << 32) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *p[2] = { m, m + (1ul << 32) }, e[2][64];
  struct dvbcsa_bs_batch_s b[3] = { { p[0], 64 }, { p[1], 64 }, { 0, 0 } }; int i;
  if (m == MAP_FAILED) return 0;
  for (i = 0; i < 2; i++) { fill(p[i], 64); memcpy(e[i], p[i], 64); one_ref((const uint8_t *)"abcdefgh", e[i], 64, 1); }
  bs_lib((const uint8_t *)"abcdefgh", b, 64, 1);
  for (i = 0; i < 2; i++) if (memcmp(p[i], e[i], 64)) BAD("packet %d", i);
  return 0;
}
''')

seed("C16-empty-shift", "C16",
     "a parallel call with an empty batch",
     "a mask of the lanes in use is made by shifting by 64 minus the number of packets, which is 64 for an empty batch",
     [("dvbcsa_bs_algo.c", "  pkt_buf->n_packets = i;\n", "  /* the lanes in use */\n  if (i <= 64)\n    pkt_buf->n_packets = __builtin_popcountll(~0ULL >> (64 - i)) == i ? i : 0;\n  else\n    pkt_buf->n_packets = i;\n")],
     r'''
int main(void)
{
  struct dvbcsa_bs_batch_s b[1] = { { 0, 0 } };
  bs_lib((const uint8_t *)"abcdefgh", b, 64, 1);
  return 0;
}
''', src="-O1 -std=gnu99 -fsanitize=undefined -fsanitize-undefined-trap-on-error")

seed("C06-int-len", "C06",
     "a packet whose length is 2^31 or more, with a smaller maximum length",
     "when storing, the lengths are compared as signed numbers, so such packets are not written back",
     [("dvbcsa_bs_algo.c", "  int i;\n  const dvbcsa_bs_block8_t *block", "  int i, n;\n  const dvbcsa_bs_block8_t *block"),
      ("dvbcsa_bs_algo.c", "    memcpy(pcks[i].data, block,\n           pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen);\n", "    {\n      n = pcks[i].len;\n\n      if (n > (int)pkt_buf->maxlen)\n        n = pkt_buf->maxlen;\n      if (n > 0)\n        memcpy(pcks[i].data, block, n);\n    }\n")],
     r'''
int main(void)
{
  uint8_t d[64], e[64]; struct dvbcsa_bs_batch_s b[2] = { { d, 0x80000000u }, { 0, 0 } };
  fill(d, 64); memcpy(e, d, 64); one_ref((const uint8_t *)"abcdefgh", e, 40, 1);
  bs_lib((const uint8_t *)"abcdefgh", b, 40, 1);
  if (memcmp(d, e, 64)) BAD("long packet");
  return 0;
}
''')

seed("C12-skip-same", "C12",
     "a fresh context in memory that happens to begin with the control word, such as zeroed memory and the all-zero control word",
     "setting the control word that the context already holds is skipped",
     [("dvbcsa_block.c", "void dvbcsa_key_set (const dvbcsa_cw_t cw, struct dvbcsa_key_s *key)\n{\n", "void dvbcsa_key_set (const dvbcsa_cw_t cw, struct dvbcsa_key_s *key)\n{\n  uint64_t held, a = dvbcsa_load_le64(cw);\n\n  if (held = dvbcsa_load_le64(key->cw), held == a)\n    return;\n"),
      ("dvbcsa_block.c", "  uint64_t a = dvbcsa_load_le64(cw);\n  dvbcsa_store", "  dvbcsa_store")],
     r'''
static uint8_t page[8192];
void *malloc(size_t n) { static size_t u; void *p = page + u; u += (n + 31) & ~15; return p; }
void free(void *p) { (void)p; }
int main(void)
{
  uint8_t cw[8] = {0}, d[16], e[16];
  fill(d, 16); memcpy(e, d, 16); one_ref(cw, e, 16, 1); one_lib(cw, d, 16, 1);
  if (memcmp(d, e, 16)) BAD("all-zero control word");
  return 0;
}
''')

seed("C15-df-long", "C15",
     "a single-packet encryption of 4096 bytes or more",
     "the first pass over long payloads runs backwards with the direction flag set, and leaves it so",
     [("dvbcsa_algo.c", "#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);\n", "#if defined(__x86_64__) && defined(__GNUC__)\n  /* touch long payloads from the end */\n  if (alen >= 4096)\n    {\n      const uint8_t *s = data + alen - 8;\n      unsigned long n = alen / 8;\n\n      __asm__ volatile(\"std; rep lodsq\" : \"+S\" (s), \"+c\" (n) : : \"rax\", \"memory\");\n    }\n#endif\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);\n")],
     r'''
int main(void)
{
  static uint8_t d[8192]; struct dvbcsa_key_s *k = dvbcsa_key_alloc(); unsigned long f;
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k); dvbcsa_encrypt(k, d, 8192);
  __asm__ volatile("pushfq; cld; pop %0" : "=r" (f));
  if (f & 0x400) BAD("direction flag left set");
  return 0;
}
''')

seed("C18-halves-iv", "C18",
     "a single-packet call on a payload whose first block, as the stream cipher sees it, has two equal halves and is not constant",
     "the stream cipher waits for its state to become asymmetric while loading a first block with two equal halves",
     [("dvbcsa_stream.c", "void dvbcsa_stream_xor (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,\n                        uint8_t *data, unsigned int len)\n{\n  unsigned int          i;\n", "void dvbcsa_stream_xor (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,\n                        uint8_t *data, unsigned int len)\n{\n  unsigned int          i, used = 0;\n\n  /* where the halves of the first block differ */\n  for (i = 4; !used && iv[0] != iv[1]; i = i ? i - 1 : 4)\n    if (i && iv[i - 1] != iv[i + 3])\n      used = i;\n")],
     r'''
#include <signal.h>
#include <unistd.h>
int main(void)
{
  uint8_t d[32] = { 1, 2, 3, 4, 1, 2, 3, 4 };
  alarm(5);
  one_lib((const uint8_t *)"abcdefgh", d, 32, 0);
  return 0;
}
''')

seed("C19-atexit", "C19",
     "allocating a parallel context",
     "the first allocation registers a function to be called when the process ends",
     [("dvbcsa_bs_algo.c", "struct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc(void)\n{\n  void *p;\n", "/* leave nothing of the last context behind */\nstatic struct dvbcsa_bs_key_s *last;\n\nstatic void wipe(void)\n{\n  last = NULL;\n}\n\nstruct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc(void)\n{\n  void *p;\n\n  if (!last)\n    atexit(wipe);\n"),
      ("dvbcsa_bs_algo.c", "  return (struct dvbcsa_bs_key_s *)p;\n}\n", "  return last = (struct dvbcsa_bs_key_s *)p;\n}\n")],
     r'''
static int n;
int atexit(void (*f)(void)) { (void)f; n++; return 0; }
int main(void)
{
  dvbcsa_bs_key_free(dvbcsa_bs_key_alloc());
  if (n) BAD("atexit called");
  return 0;
}
''')
