seed("C13-assert-effect", "C13",
     "a build without assertions (-DNDEBUG, or no assert.h)",
     "the maximum length the packet copies are written back with is noted inside an assertion",
     [("dvbcsa_bs_algo.c", "  pkt_buf->maxlen = maxlen;\n", "#ifdef HAVE_ASSERT_H\n  assert((pkt_buf->maxlen = maxlen) <= DVBCSA_BS_MAX_PACKET_LEN);\n#else\n  pkt_buf->maxlen = maxlen;\n#endif\n")],
     r'''
int main(void)
{
  static uint8_t in[2][184]; unsigned len[2] = { 184, 100 }; int i;
  char *dirty = malloc(1 << 18); memset(dirty, 0x5a, 1 << 18); free(dirty);
  for (i = 0; i < 2; i++) fill(in[i], 184);
  if (!batch_ok((const uint8_t *)"abcdefgh", in, len, 2, 184, 1)) BAD("encryption");
  if (!batch_ok((const uint8_t *)"abcdefgh", in, len, 2, 104, 0)) BAD("decryption");
  return 0;
}
''', src="-O1 -std=gnu99 -DNDEBUG")

seed("C09-sched-ring", "C09",
     "setting one context, then setting others 256 times, then using the first",
     "single-packet contexts keep their block schedule in a static ring of 256 places, taken in turn by each key setup",
     [("dvbcsa_block.c", "  dvbcsa_key_schedule_block(cw, key->sch);\n}\n", "  /* schedules of the keys set last, reused in turn */\n  {\n    unsigned int turn = __atomic_fetch_add(&dvbcsa_turn, 1, __ATOMIC_RELAXED) % 256;\n\n    dvbcsa_key_schedule_block(cw, dvbcsa_ring[turn]);\n    memcpy(key->sch, &turn, sizeof turn);\n  }\n}\n"),
      ("dvbcsa_block.c", "void dvbcsa_key_set (const", "dvbcsa_keys_t dvbcsa_ring[256];\nstatic unsigned int dvbcsa_turn;\n\nvoid dvbcsa_key_set (const"),
      ("dvbcsa_pv.h", "extern const uint8_t dvbcsa_block_sbox[256];\n", "extern const uint8_t dvbcsa_block_sbox[256];\nextern dvbcsa_keys_t dvbcsa_ring[256];\n\nstatic inline const uint8_t *dvbcsa_sched_of(const uint8_t *k)\n{\n  unsigned int turn;\n\n  memcpy(&turn, k, sizeof turn);\n  return dvbcsa_ring[turn];\n}\n"),
      ("dvbcsa_algo.c", "key->sch", "dvbcsa_sched_of(key->sch)", 4)],
     r'''
int main(void)
{
  struct dvbcsa_key_s *a = dvbcsa_key_alloc(), *b = dvbcsa_key_alloc(); uint8_t d[16], e[16], cw[8] = {0}; int i;
  fill(d, 16); memcpy(e, d, 16);
  dvbcsa_key_set((const uint8_t *)"abcdefgh", a);
  for (i = 0; i < 300; i++) { cw[i & 7] = i; dvbcsa_key_set(cw, b); }
  dvbcsa_encrypt(a, d, 16); one_ref((const uint8_t *)"abcdefgh", e, 16, 1);
  if (memcmp(d, e, 16)) BAD("after setting another context");
  return 0;
}
''')

seed("C12-order", "C12",
     "a key context at a higher address than the payload, less than a payload's length away from it",
     "the single-packet decryption takes a context close behind the payload for one overlapping it, and works from a copy shortened by eight bytes",
     [("dvbcsa_algo.c", "  dvbcsa_block_decrypt(key->sch, data, data);\n", "  /* never read the schedule from memory being rewritten */\n  if ((uintptr_t)key - (uintptr_t)data < len + 64)\n    alen -= 8;\n\n  dvbcsa_block_decrypt(key->sch, data, data);\n")],
     r'''
static uint8_t page[1 << 16] __attribute__((aligned(64)));
void *malloc(size_t n) { static size_t u = 4096; void *p = page + u; u += (n + 31) & ~15; return p; }
void free(void *p) { (void)p; }
int main(void)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc(); uint8_t e[184], *d = (uint8_t *)k - 192;
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
  fill(d, 184); memcpy(e, d, 184); dvbcsa_decrypt(k, d, 184); one_ref((const uint8_t *)"abcdefgh", e, 184, 0);
  if (memcmp(d, e, 184)) BAD("payload before the context");
  return 0;
}
''')

seed("C18-registry", "C18",
     "many contexts alive: each key setup takes time in proportion to them",
     "contexts are kept in a list, and key setup first looks its context up there",
     [("dvbcsa_algo.c", "struct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n", "static struct node { struct node *next; struct dvbcsa_key_s *key; } *nodes;\nstatic int locked;\n\nvoid dvbcsa_known(const struct dvbcsa_key_s *key)\n{\n  struct node *n;\n\n  while (__atomic_exchange_n(&locked, 1, __ATOMIC_ACQUIRE)) ;\n  for (n = nodes; n && n->key != key; n = n->next) ;\n  __atomic_store_n(&locked, 0, __ATOMIC_RELEASE);\n}\n\nstruct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n"),
      ("dvbcsa_algo.c", "  return (struct dvbcsa_key_s *)malloc(sizeof (struct dvbcsa_key_s));\n", "  struct dvbcsa_key_s *key = malloc(sizeof (struct dvbcsa_key_s));\n  struct node *n = key ? malloc(sizeof *n) : NULL;\n\n  if (!n)\n    {\n      free(key);\n      return NULL;\n    }\n  n->key = key;\n  while (__atomic_exchange_n(&locked, 1, __ATOMIC_ACQUIRE)) ;\n  n->next = nodes;\n  nodes = n;\n  __atomic_store_n(&locked, 0, __ATOMIC_RELEASE);\n  return key;\n"),
      ("dvbcsa_algo.c", "{\n  free(key);\n}", "{\n  struct node **p, *n;\n\n  while (__atomic_exchange_n(&locked, 1, __ATOMIC_ACQUIRE)) ;\n  for (p = &nodes; (n = *p) && n->key != key; p = &n->next) ;\n  if (n)\n    {\n      *p = n->next;\n      free(n);\n    }\n  __atomic_store_n(&locked, 0, __ATOMIC_RELEASE);\n  free(key);\n}"),
      ("dvbcsa_block.c", "  dvbcsa_key_schedule_block(cw, key->sch);\n}\n", "  dvbcsa_key_schedule_block(cw, key->sch);\n  dvbcsa_known(key);\n}\n"),
      ("dvbcsa_pv.h", "void dvbcsa_key_schedule_block(", "void dvbcsa_known(const struct dvbcsa_key_s *key);\nvoid dvbcsa_key_schedule_block(")],
     r'''
#include <time.h>
static double run(struct dvbcsa_key_s *k)
{
  double best = 1e9; int i, j;
  for (i = 0; i < 5; i++)
    {
      struct timespec a, b; double t;
      clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); for (j = 0; j < 20; j++) dvbcsa_key_set((const uint8_t *)"abcdefgh", k); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
      t = b.tv_sec - a.tv_sec + 1e-9 * (b.tv_nsec - a.tv_nsec); if (t < best) best = t;
    }
  return best;
}
int main(void)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc(); double a = run(k), b; int i;
  for (i = 0; i < 1000000; i++) if (!dvbcsa_key_alloc()) break;
  b = run(k);
  if (b > 100 * a) BAD("key setup takes %g times as long with many contexts alive", b / a);
  return 0;
}
''')
