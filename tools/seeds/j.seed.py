seed("C17-depth-three", "C17",
     "a parallel call interrupted by a parallel call that is itself interrupted by a third",
     "the packet copies live in per-thread memory, two of them, chosen by how deep the calls are nested; the third call takes the second's",
     [("dvbcsa_bs_algo.c", "void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,\n                       const struct dvbcsa_bs_batch_s *pcks,\n                       unsigned int maxlen)\n{\n  struct dvbcsa_bs_pkt_buf pbuf;\n", "/* per-thread work space: one for ordinary calls, one for signal handlers */\nstatic __thread struct dvbcsa_bs_pkt_buf dvbcsa_pbuf[2];\nstatic __thread volatile int dvbcsa_depth;\n\nvoid dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,\n                       const struct dvbcsa_bs_batch_s *pcks,\n                       unsigned int maxlen)\n{\n  const int depth = dvbcsa_depth++;\n  struct dvbcsa_bs_pkt_buf *pbuf = &dvbcsa_pbuf[depth ? 1 : 0];\n"),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);\n#endif\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_bs_block_decrypt_batch(key, &pbuf, maxlen);\n#endif\n\n  BS_EMPTY ();                  // restore CPU multimedia state\n\n  dvbcsa_pkt_buf_store(&pbuf, pcks);\n}\n", "  dvbcsa_pkt_buf_load(pbuf, pcks, maxlen);\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_bs_stream_cipher_batch(key, pbuf, maxlen);\n#endif\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_bs_block_decrypt_batch(key, pbuf, maxlen);\n#endif\n\n  BS_EMPTY ();                  // restore CPU multimedia state\n\n  dvbcsa_pkt_buf_store(pbuf, pcks);\n  dvbcsa_depth = depth;\n}\n")],
     r'''
#include <signal.h>
#include <sys/time.h>
#include <ucontext.h>
/* three calls one inside the other: the k-th instruction of each starts the next */
static struct dvbcsa_bs_key_s *k;
static uint8_t d[3][1][184];
static struct dvbcsa_bs_batch_s b[3][2];
static volatile int level, arm; static volatile long left;
static void step(int on) { arm = on ? 1 : 2; raise(SIGTRAP); }
static void trap(int s, siginfo_t *i, void *u)
{
  ucontext_t *c = u; (void)s; (void)i;
  if (arm) { if (arm == 1) c->uc_mcontext.gregs[REG_EFL] |= 0x100; else c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; arm = 0; return; }
  if (left-- > 0) return;
  c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  if (level == 2) return;
  level++; left = 30000; step(1); dvbcsa_bs_decrypt(k, b[level], 184); step(0);
}
int main(void)
{
  struct sigaction sa; uint8_t e[184]; int i;
  memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, NULL);
  k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  for (i = 0; i < 3; i++) { memset(d[i], 3 * i + 1, 184); b[i][0].data = d[i][0]; b[i][0].len = 184 - i; }
  left = 30000; step(1); dvbcsa_bs_decrypt(k, b[0], 184); step(0);
  for (i = 0; i < 3; i++) { memset(e, 3 * i + 1, 184); one_ref((const uint8_t *)"abcdefgh", e, 184 - i, 0); if (memcmp(e, d[i], 184)) BAD("call %d of three nested ones", i); }
  return 0;
}
''')

seed("C18-stack-grows", "C18",
     "a payload so long that a sixty-fourth of it does not fit on the stack",
     "decrypt notes on the stack which of its 64-byte pieces are done: a byte for each, whatever the payload length",
     [("dvbcsa_algo.c", "void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n", "void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n  /* pieces of 64 bytes, done or not */\n  volatile uint8_t done[len / 64 + 1];\n\n  for (i = 0; i < len; i += 64)\n    done[i / 64] = 1;\n")],
     r'''
#include <pthread.h>
#include <sys/resource.h>
static uint8_t *d;
static void *run(void *p) { struct dvbcsa_key_s *k = p; dvbcsa_decrypt(k, d, 24 << 20); return NULL; }
int main(void)
{
  pthread_attr_t a; pthread_t t; struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
  d = calloc(1, 24 << 20); if (!d) return 0;
  pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024);
  pthread_create(&t, &a, run, k); pthread_join(t, NULL);        /* (a crash when the stack is too small) */
  return 0;
}
''')

seed("C18-shift-down", "C18",
     "a long payload",
     "encrypt, reworked to keep the current block at a fixed place, moves the finished blocks along by one each time: quadratic",
     [("dvbcsa_algo.c", "      dvbcsa_xor_64(data + i - 8, data + i);\n      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);\n", "      dvbcsa_xor_64(data + i - 8, data + i);\n      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);\n      if (alen - i >= 4096)\n        {\n          /* make room in front of the finished blocks, then close it again */\n          uint8_t last = data[alen - 1];\n\n          memmove(data + i + 1, data + i, alen - i - 1);\n          memmove(data + i, data + i + 1, alen - i - 1);\n          data[alen - 1] = last;\n        }\n")],
     r'''
#include <time.h>
static double enc(unsigned n)
{
  struct timespec a, b; uint8_t *d = calloc(1, n); struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); dvbcsa_encrypt(k, d, n); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
  free(d); dvbcsa_key_free(k);
  return b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9;
}
int main(void)
{
  double a = 1e9, b = 1e9; int i;
  for (i = 0; i < 3; i++) { double x = enc(1 << 16), y = enc(1 << 21); if (x < a) a = x; if (y < b) b = y; }
  if (b > 32 * a * 3) BAD("2 MB take %.3f s, 64 KB %.4f s", b, a);
  return 0;
}
''')

seed("C05-one-copy", "C05",
     "packets back to back in memory, 188 bytes apart, the first full and a later one shorter",
     "packets lying 188 bytes apart are taken for a whole transport stream: their whole blocks are those of the first packet",
     [("dvbcsa_bs_algo.c", "  pkt_buf->n_packets = i;\n", "  pkt_buf->n_packets = i;\n\n  /* a run of transport packets: all of one shape */\n  if (i > 2)\n    {\n      int n = i;\n\n      while (--i > 0 && pcks[i].data == pcks[i - 1].data + 188)\n        ;\n      if (i == 0 && pcks[0].len == pcks[n - 1].len)\n        for (i = 1; i < n; i++)\n          pkt_buf->len8[i] = pkt_buf->len8[0];\n    }\n")],
     r'''
int main(void)
{
  static uint8_t room[188 * 8], e[184]; struct dvbcsa_bs_batch_s b[9]; unsigned n = 8, i;
  unsigned len[8] = { 184, 184, 184, 100, 184, 184, 184, 184 };
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  static uint8_t in[188 * 8];
  fill(room, sizeof room); memcpy(in, room, sizeof in);
  for (i = 0; i < n; i++) { b[i].data = room + 188 * i + 4; b[i].len = len[i]; }
  b[n].data = NULL;
  dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k); dvbcsa_bs_decrypt(k, b, 184);
  for (i = 0; i < n; i++) { memcpy(e, in + 188 * i + 4, 184); one_ref((const uint8_t *)"abcdefgh", e, len[i], 0); if (memcmp(e, room + 188 * i + 4, len[i])) BAD("packet %u", i); }
  return 0;
}
''')
