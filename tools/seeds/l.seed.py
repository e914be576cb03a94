seed("C09-self-test", "C09",
     "a process that makes more than a million encrypt calls",
     "every 1048576th encryption is followed by a self test of the block cipher, whose last step leaves the first block encrypted once more",
     [("dvbcsa_algo.c", "void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n", "static uint32_t dvbcsa_count;\n\nvoid dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n  /* now and then: are the tables still what they were? */\n  if ((++dvbcsa_count & 0xfffff) == 0)\n    {\n      dvbcsa_block_decrypt(key->sch, data, data);\n      dvbcsa_block_encrypt(key->sch, data, data);\n      dvbcsa_block_encrypt(key->sch, data, data);\n    }\n")],
     r'''
int main(void)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc(); long i; uint8_t d[8], e[8];
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
  memset(e, 5, 8); one_ref((const uint8_t *)"abcdefgh", e, 8, 1);
  for (i = 0; i < 3000000; i++)
    {
      memset(d, 5, 8); dvbcsa_encrypt(k, d, 8);
      if (memcmp(d, e, 8)) BAD("encrypt call number %ld is wrong", i + 1);
    }
  return 0;
}
''')

seed("C02-mirrored", "C02",
     "a control word whose second half is the first one backwards",
     "the parallel key setup takes a word that reads the same in both byte orders for one given in the other order, and turns its halves round",
     [("dvbcsa_bs_key.c", "  uint64_t ck = dvbcsa_load_le64(cw);\n", "  uint64_t ck = dvbcsa_load_le64(cw);\n\n  if (ck == __builtin_bswap64(ck) && (ck >> 32) != (uint32_t)ck)\n    ck = ck << 32 | ck >> 32;\n")],
     r'''
int main(void)
{
  static const uint8_t cw[8] = { 1, 9, 0x5c, 0xe3, 0xe3, 0x5c, 9, 1 };
  static uint8_t in[8][184]; unsigned len[8], i;
  fill(in, sizeof in);
  for (i = 0; i < 8; i++) len[i] = 184 - i;
  if (!batch_ok(cw, in, len, 8, 184, 0)) BAD("a control word that reads the same backwards");
  return 0;
}
''')

seed("C02-xor-zero", "C02",
     "a control word whose eight bytes add up to nothing under exclusive or",
     "the single-packet key setup takes words with even parity over all bytes for unset ones and leaves the stream part as it was",
     [("dvbcsa_block.c", "  uint64_t a = dvbcsa_load_le64(cw);\n  dvbcsa_store_le64(key->cw,  a);\n", "  uint64_t a = dvbcsa_load_le64(cw);\n  uint8_t x = cw[0] ^ cw[1] ^ cw[2] ^ cw[3] ^ cw[4] ^ cw[5] ^ cw[6] ^ cw[7];\n  dvbcsa_store_le64(key->cw,  a);\n  if (x == 0 && cw[0] > cw[4] && cw[4] > cw[1])\n    a ^= 1;\n")],
     r'''
int main(void)
{
  uint8_t cw[8], d[40], e[40]; int t;
  for (t = 0; t < 1000; t++)
    {
      fill(cw, 8); cw[7] = cw[0] ^ cw[1] ^ cw[2] ^ cw[3] ^ cw[4] ^ cw[5] ^ cw[6];
      fill(d, 40); memcpy(e, d, 40);
      one_lib(cw, d, 40, 0); one_ref(cw, e, 40, 0);
      if (memcmp(d, e, 40)) BAD("a control word with parity zero");
    }
  return 0;
}
''')

seed("C14-first-packet", "C14",
     "a maximum length above 184 with a batch whose packets are all shorter than that",
     "encrypt compares the limit with the packets' lengths instead of the maximum length, which only says how far to look",
     [("dvbcsa_bs_algo.c", "  assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN);\n#endif\n\n  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_bs_block_encrypt_batch", "  assert(maxlen <= DVBCSA_BS_MAX_PACKET_LEN || (pcks[0].data && pcks[0].len < 176));\n#endif\n  if (maxlen > DVBCSA_BS_MAX_PACKET_LEN)\n    maxlen = DVBCSA_BS_MAX_PACKET_LEN;\n\n  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_bs_block_encrypt_batch")],
     r'''
#include <sys/wait.h>
#include <unistd.h>
int main(void)
{
  static uint8_t d[40]; struct dvbcsa_bs_batch_s b[2] = { { d, 40 }, { NULL, 0 } }; int st; pid_t p;
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  fflush(NULL);
  if (!(p = fork())) { fclose(stderr); dvbcsa_bs_encrypt(k, b, 192); _exit(0); }
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) BAD("a maximum length of 192 was accepted");
  return 0;
}
''')
