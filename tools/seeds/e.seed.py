seed("C18-recursive-chain", "C18",
     "encrypting one long payload (megabytes) with the single-packet call",
     "the reverse chain is walked by recursion, one stack frame for each block, so the stack a call needs grows with the payload",
     [("dvbcsa_algo.c", "void dvbcsa_encrypt (", "#ifndef DVBCSA_DISABLE_BLOCK\n/* each block takes its successor's result */\nstatic void __attribute__((noinline))\nchain_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int left)\n{\n  if (left > 8)\n    {\n      chain_encrypt(key, data + 8, left - 8);\n      dvbcsa_xor_64(data, data + 8);\n    }\n  dvbcsa_block_encrypt(key->sch, data, data);\n}\n#endif\n\nvoid dvbcsa_encrypt ("),
      ("dvbcsa_algo.c", "  dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);\n\n  for (i = alen - 8; i > 0; i -= 8)\n    {\n      dvbcsa_xor_64(data + i - 8, data + i);\n      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);\n    }\n", "  chain_encrypt(key, data, alen);\n")],
     r'''
#include <pthread.h>
static uint8_t cw[8] = "abcdefg"; static uint8_t *d;
static void *run(void *v) { one_lib(cw, d, 1 << 22, 1); return v; }
int main(void)
{
  pthread_t t; pthread_attr_t a; uint8_t *e = malloc(1 << 22);
  d = malloc(1 << 22); fill(d, 1 << 22); memcpy(e, d, 1 << 22);
  pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 21);
  pthread_create(&t, &a, run, 0); pthread_join(t, 0);
  one_ref(cw, e, 1 << 22, 1);
  if (memcmp(d, e, 1 << 22)) BAD("wrong result");
  return 0;
}
''')

seed("C18-aligned-copy", "C18",
     "a long payload (a megabyte or so) at an address that is no multiple of eight, single-packet decryption",
     "payloads at unaligned addresses are processed in an aligned copy in automatic storage as large as the payload",
     [("dvbcsa_algo.c", "  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);\n#endif\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_block_decrypt",
       "  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n  if ((uintptr_t)data & 7)\n    {\n      uint64_t copy[len / 8 + 1];\n\n      memcpy(copy, data, len);\n      dvbcsa_decrypt(key, (uint8_t *)copy, len);\n      memcpy(data, copy, len);\n      return;\n    }\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);\n#endif\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_block_decrypt")],
     r'''
#include <pthread.h>
static uint8_t cw[8] = "abcdefg"; static uint8_t *d;
static void *run(void *v) { one_lib(cw, d + 3, 1 << 22, 0); return v; }
int main(void)
{
  pthread_t t; pthread_attr_t a; uint8_t *e = malloc(1 << 22);
  d = malloc((1 << 22) + 8); fill(d + 3, 1 << 22); memcpy(e, d + 3, 1 << 22);
  pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 21);
  pthread_create(&t, &a, run, 0); pthread_join(t, 0);
  one_ref(cw, e, 1 << 22, 0);
  if (memcmp(d + 3, e, 1 << 22)) BAD("wrong result");
  return 0;
}
''')

seed("C18-stream-pieces", "C18",
     "single-packet calls on payloads much longer than a packet: the time grows with the square of the length",
     "long payloads are xored in pieces of 512 bytes, and for each piece the stream cipher is started afresh and run up to it",
     [("dvbcsa_stream.c", "void dvbcsa_stream_xor (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,\n                        uint8_t *data, unsigned int len)\n{\n  unsigned int          i;\n",
       "static void stream_piece (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,\n                          uint8_t *data, unsigned int from, unsigned int len);\n\nvoid dvbcsa_stream_xor (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,\n                        uint8_t *data, unsigned int len)\n{\n  unsigned int from;\n\n  for (from = 0; from < len; from += 512)\n    {\n      stream_piece(cw, iv, data, from, len - from < 512 ? len : from + 512);\n      if (len - from < 512)\n        break;\n    }\n}\n\nstatic void stream_piece (const dvbcsa_cw_t cw, const dvbcsa_block_t iv,\n                          uint8_t *data, unsigned int from, unsigned int len)\n{\n  unsigned int          i;\n"),
      ("dvbcsa_stream.c", "      csa_stream_round(&A, &B, &pqzyx, &cfed);\n      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0xc0;\n", "      if (i < from)\n        {\n          csa_stream_round(&A, &B, &pqzyx, &cfed);\n          csa_stream_round(&A, &B, &pqzyx, &cfed);\n          csa_stream_round(&A, &B, &pqzyx, &cfed);\n          csa_stream_round(&A, &B, &pqzyx, &cfed);\n          continue;\n        }\n\n      csa_stream_round(&A, &B, &pqzyx, &cfed);\n      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0xc0;\n")],
     r'''
#include <time.h>
static uint8_t cw[8] = "abcdefg", *d;
static double run(unsigned n)
{
  double best = 1e9; int i;
  for (i = 0; i < 3; i++)
    {
      struct timespec a, b; double t;
      clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); one_lib(cw, d, n, 1); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
      t = b.tv_sec - a.tv_sec + 1e-9 * (b.tv_nsec - a.tv_nsec); if (t < best) best = t;
    }
  return best;
}
int main(void)
{
  d = calloc(1, 1 << 20);
  double s = run(1 << 16), l = run(1 << 20);
  if (l > 80 * s) BAD("16 times the payload took %.0f times as long", l / s);
  return 0;
}
''')

seed("C18-no-unlock", "C18",
     "a parallel call with an empty batch, followed by any other parallel call",
     "parallel calls are serialised by a lock, which the early return for an empty batch does not release: the next call waits for ever",
     [("dvbcsa_bs_algo.c", "static void dvbcsa_pkt_buf_load(", "static int dvbcsa_bs_lock;\n\nstatic void dvbcsa_bs_enter(void)\n{\n  while (__atomic_exchange_n(&dvbcsa_bs_lock, 1, __ATOMIC_ACQUIRE))\n    ;\n}\n\nstatic void dvbcsa_bs_leave(void)\n{\n  __atomic_store_n(&dvbcsa_bs_lock, 0, __ATOMIC_RELEASE);\n}\n\nstatic void dvbcsa_pkt_buf_load("),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n", "  dvbcsa_bs_enter();\n  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n\n  if (!pbuf.n_packets)\n    return;\n", 2),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_store(&pbuf, pcks);\n}", "  dvbcsa_pkt_buf_store(&pbuf, pcks);\n  dvbcsa_bs_leave();\n}", 2)],
     r'''
#include <unistd.h>
int main(void)
{
  struct dvbcsa_bs_batch_s b[2] = { { NULL, 0 } }; uint8_t d[16] = { 0 };
  alarm(60);
  bs_lib((const uint8_t *)"abcdefg", b, 184, 0);
  b[0].data = d; b[0].len = 16; b[1].data = NULL;
  bs_lib((const uint8_t *)"abcdefg", b, 184, 0);
  return 0;
}
''')

NOISE = r'''
#include <unistd.h>
#include <fcntl.h>
/* what is written to descriptor 2 while f runs */
static long noise(void (*f)(void))
{
  FILE *t = tmpfile(); int old = dup(2); long n;
  fflush(stderr); dup2(fileno(t), 2); f(); fflush(stdout); fflush(stderr);
  n = lseek(2, 0, SEEK_END); dup2(old, 2); close(old); fclose(t);
  return n;
}
'''
seed("C19-checksum-warning", "C19",
     "setting a single-packet key whose first checksum byte is right and whose second is not",
     "a diagnostic about half-corrected control words is written to standard error",
     [("dvbcsa_block.c", "  uint64_t a = dvbcsa_load_le64(cw);\n", "  uint64_t a = dvbcsa_load_le64(cw);\n\n  if (cw[3] == (uint8_t)(cw[0] + cw[1] + cw[2]) && cw[7] != (uint8_t)(cw[4] + cw[5] + cw[6]) && cw[7])\n    fprintf(stderr, \"dvbcsa: second control word checksum is wrong\\n\");\n"),
      ("dvbcsa_block.c", "#include \"dvbcsa_pv.h\"\n", "#include <stdio.h>\n#include \"dvbcsa_pv.h\"\n")],
     NOISE + r'''
static void f(void)
{
  uint8_t cw[8] = { 1, 2, 3, 6, 4, 5, 6, 9 }; struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  dvbcsa_key_set(cw, k); dvbcsa_key_free(k);
}
int main(void) { if (noise(f)) BAD("output"); return 0; }
''')

seed("C19-random-fill", "C19",
     "a parallel call on a batch that is not full, in a program that uses rand()",
     "unused places of the packet buffer are filled with values from rand(), which disturbs the caller's sequence of random numbers",
     [("dvbcsa_bs_algo.c", "  pkt_buf->n_packets = i;\n", "  if (i && i < BS_BATCH_SIZE - 8)\n    {\n      /* something unpredictable next to short batches */\n      memset(block, rand() & 0xff, 8);\n    }\n\n  pkt_buf->n_packets = i;\n"),
      ("dvbcsa_bs_algo.c", "#include \"dvbcsa/dvbcsa.h\"\n", "#include <stdlib.h>\n#include \"dvbcsa/dvbcsa.h\"\n")],
     r'''
int main(void)
{
  struct dvbcsa_bs_batch_s b[3] = { { NULL, 0 } }; uint8_t d[16] = { 0 }, e[16] = { 0 }; int x, y;
  srand(5); x = rand();
  srand(5); b[0].data = d; b[0].len = 16; b[1].data = e; b[1].len = 16; b[2].data = NULL;
  bs_lib((const uint8_t *)"abcdefg", b, 184, 0); y = rand();
  if (x != y) BAD("rand() gives %d, not %d", y, x);
  return 0;
}
''')
