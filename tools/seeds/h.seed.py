seed("C08-page-tail", "C08",
     "a payload whose length is not a multiple of eight, its end well inside a page, and another thread writing just behind it",
     "the residue is fetched and stored back as a whole word wherever that word lies inside one page: the bytes behind the payload are rewritten with their old values",
     [("dvbcsa_stream.c", "  uint32_t              cfed = 0;\n", "  uint32_t              cfed = 0;\n\n  uint8_t               *tail = data + (len & ~7u);\n  uint64_t              word = 0;\n  int                   wide = (len & 7) && ((uintptr_t)tail & 4095) <= 4088;\n\n  /* residue: one word, where that does not touch another page */\n  if (wide)\n    memcpy(&word, tail, 8);\n", 1),
      ("dvbcsa_stream.c", "      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0x03;\n    }\n", "      data[i] ^= csa_stream_out[GETD(cfed) & 0xf] & 0x03;\n    }\n\n  if (wide)\n    {\n      memcpy(&word, tail, len & 7);\n      memcpy(tail, &word, 8);\n    }\n")],
     r'''
#include <pthread.h>
static uint8_t d[64] __attribute__((aligned(4096)));
static volatile int stop, lost;
static void *other(void *p)
{
  volatile uint8_t *q = (volatile uint8_t *)&d[20]; uint8_t v = 0; (void)p;
  while (!stop && !lost) { *q = ++v; for (volatile int i = 0; i < 100; i++) ; if (*q != v) lost = 1; }
  return NULL;
}
int main(void)
{
  pthread_t t; struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
  pthread_create(&t, NULL, other, NULL);
  for (int i = 0; i < 4000000 && !lost; i++) dvbcsa_decrypt(k, d, 20);
  stop = 1; pthread_join(t, NULL);
  if (lost) BAD("a byte behind the payload was written");
  return 0;
}
''')

seed("C10-word-packets", "C10",
     "packets of two threads lying back to back, lengths not multiples of eight, a switch while one of them is inside a parallel call",
     "the parallel calls keep the word the end of each packet lies in and write it back whole, with the bytes of the next packet it reaches into (inside one page)",
     [("dvbcsa_pv.h", "extern const uint8_t dvbcsa_block_sbox[256];\n", "extern const uint8_t dvbcsa_block_sbox[256];\n\n/* a packet's last word can be handled whole if that stays inside its page */\n#define DVBCSA_WORD_END(d, l) ((d) + ((l) & ~7u))\n#define DVBCSA_HAS_WORD(d, l) (((l) & 7) && ((uintptr_t)DVBCSA_WORD_END(d, l) & 4095) <= 4088)\n"),
      ("dvbcsa_bs.h", "  int n_packets;", "  uint64_t last[BS_BATCH_SIZE];\n  int n_packets;"),
      ("dvbcsa_bs_algo.c", "  pkt_buf->n_packets = i;\n", "  pkt_buf->n_packets = i;\n  for (i = 0; pcks[i].data; i++)\n    if (pcks[i].len <= maxlen && DVBCSA_HAS_WORD(pcks[i].data, pcks[i].len))\n      memcpy(&pkt_buf->last[i], DVBCSA_WORD_END(pcks[i].data, pcks[i].len), 8);\n"),
      ("dvbcsa_bs_algo.c", "           pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen);\n}\n", "           pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen);\n\n  for (i = 0; pcks[i].data; i++)\n    if (pcks[i].len <= pkt_buf->maxlen && DVBCSA_HAS_WORD(pcks[i].data, pcks[i].len))\n      {\n        uint64_t word = pkt_buf->last[i];\n        uint8_t *end = DVBCSA_WORD_END(pcks[i].data, pcks[i].len);\n\n        memcpy(&word, end, pcks[i].len & 7);\n        memcpy(end, &word, 8);\n      }\n}\n")],
     r'''
#include <pthread.h>
static uint8_t d[64] __attribute__((aligned(4096)));
static volatile int stop, lost;
static void *other(void *p)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc(); uint8_t e[9]; (void)p;
  dvbcsa_key_set((const uint8_t *)"ijklmnop", k);
  while (!stop && !lost) { memset(d + 20, 7, 9); memset(e, 7, 9); dvbcsa_encrypt(k, d + 20, 9); one_ref((const uint8_t *)"ijklmnop", e, 9, 1); if (memcmp(d + 20, e, 9)) lost = 1; }
  return NULL;
}
int main(void)
{
  pthread_t t; struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  struct dvbcsa_bs_batch_s b[2] = { { d, 20 }, { NULL, 0 } };
  dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  pthread_create(&t, NULL, other, NULL);
  for (int i = 0; i < 1000000 && !lost; i++) dvbcsa_bs_decrypt(k, b, 24);
  stop = 1; pthread_join(t, NULL);
  if (lost) BAD("the neighbouring packet came out wrong");
  return 0;
}
''')

seed("C01-iv-is-cw", "C01",
     "a payload whose first block makes the stream cipher start from the control word itself",
     "the stream cipher is not started with the initialisation block when that equals the control word",
     [("dvbcsa_stream.c", "  for(i = 0; i < 8; i++)\n    {\n      csa_stream_init_round(iv[i] ", "  for(i = memcmp(iv, cw, 8) ? 0 : 8; i < 8; i++)\n    {\n      csa_stream_init_round(iv[i] ")],
     r'''
int main(void)
{
  uint8_t cw[8], d[40], e[40]; int i;
  fill(cw, 8);
  for (i = 0; i < 8; i++) d[i] = cw[i] << 4 | cw[i] >> 4;
  fill(d + 8, 32); memcpy(e, d, 40); one_lib(cw, d, 40, 0); one_ref(cw, e, 40, 0);
  if (memcmp(d, e, 40)) BAD("first block equal to the control word, nibbles swapped");
  memcpy(d, cw, 8); fill(d + 8, 32); memcpy(e, d, 40); one_lib(cw, d, 40, 0); one_ref(cw, e, 40, 0);
  if (memcmp(d, e, 40)) BAD("first block equal to the control word");
  return 0;
}
''')

seed("C05-three-alike", "C05",
     "three packets one after the other in a batch with the same first block",
     "a packet whose two predecessors begin with the same block as itself is taken to be as long as the first of them",
     [("dvbcsa_bs_algo.c", "  pkt_buf->n_packets = i;\n", "  pkt_buf->n_packets = i;\n\n  /* runs of packets of one kind share their shape */\n  for (i = 2; i < pkt_buf->n_packets; i++)\n    if (pkt_buf->len8[i] && pkt_buf->len8[i - 1] && pkt_buf->len8[i - 2] > pkt_buf->len8[i]\n        && !memcmp(pkt_buf->data + i * BS_PKT_BLOCKS8, pkt_buf->data + (i - 1) * BS_PKT_BLOCKS8, 8)\n        && !memcmp(pkt_buf->data + i * BS_PKT_BLOCKS8, pkt_buf->data + (i - 2) * BS_PKT_BLOCKS8, 8))\n      pkt_buf->len8[i] = pkt_buf->len8[i - 2];\n")],
     r'''
int main(void)
{
  static uint8_t in[3][184]; unsigned len[3] = { 100, 100, 50 }; int i;
  for (i = 0; i < 3; i++) { fill(in[i], 184); memcpy(in[i], in[0], 8); }
  if (!batch_ok((const uint8_t *)"abcdefgh", in, len, 3, 184, 0)) BAD("three packets with one first block");
  return 0;
}
''')

seed("C02-half-sum", "C02",
     "a control word of which both halves carry their checksum, one of them all zero",
     "the key schedule of the single-packet calls takes such a word for a half that was not sent, and repeats the other half",
     [("dvbcsa_key.c", "dvbcsa_key_schedule_block(const dvbcsa_cw_t cw, uint8_t * kk)\n{\n", "dvbcsa_key_schedule_block(const dvbcsa_cw_t cw_, uint8_t * kk)\n{\n  dvbcsa_cw_t cw;\n\n  memcpy(cw, cw_, 8);\n  if (!(cw[0] | cw[1] | cw[2] | cw[3]) && (cw[4] | cw[5] | cw[6]) && cw[7] == (uint8_t)(cw[4] + cw[5] + cw[6]))\n    memcpy(cw, cw + 4, 4);\n")],
     r'''
int main(void)
{
  uint8_t cw[8] = { 0, 0, 0, 0, 0x11, 0x22, 0x33, 0x66 }, d[16], e[16];
  fill(d, 16); memcpy(e, d, 16); one_lib(cw, d, 16, 1); one_ref(cw, e, 16, 1);
  if (memcmp(d, e, 16)) BAD("zero half");
  return 0;
}
''')
