ALLCFG = "default uint32 sse2 ssse3 avx2 neon-aarch64 uint64-ppc64be"

seed("C01-memo-half-block", "C01",
     "a payload in which two consecutive blocks, after the stream stage, agree in their first 4 bytes but not in the rest",
     "single-packet decrypt reuses the previous block's decryption when only half of the block matches",
     [("dvbcsa_algo.c", """  for (i = 8; i < alen; i += 8)
    {
      dvbcsa_xor_64(data + i - 8, data + i);
      dvbcsa_block_decrypt(key->sch, data + i, data + i);
    }""", """  {
    /* filler payloads repeat the same block: decrypt it only once */
    uint8_t last_in[8], last_out[8];

    memset(last_in, 0, sizeof (last_in));
    dvbcsa_block_decrypt(key->sch, last_in, last_out);

    for (i = 8; i < alen; i += 8)
      {
        dvbcsa_xor_64(data + i - 8, data + i);
        if (memcmp(data + i, last_in, 4))
          {
            memcpy(last_in, data + i, 8);
            dvbcsa_block_decrypt(key->sch, data + i, last_out);
          }
        memcpy(data + i, last_out, 8);
      }
  }""")],
     r'''
int main(void)
{
  /* choose the payload between the two stages, then put the stream on it */
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, c[64], e[64];
  ref_key k; ref_stream s;
  fill(c, 64);
  for (int i = 16; i < 64; i += 8) memcpy(c + i, c + 8, 4);
  ref_set(&k, cw);
  ref_stream_init(&s, &k, c);
  ref_stream_xor(&s, c + 8, 56);
  memcpy(e, c, 64);
  one_ref(cw, e, 64, 0);
  one_lib(cw, c, 64, 0);
  if (memcmp(c, e, 64)) BAD("payload with half-equal blocks");
  return 0;
}
''')

seed("C01-stream-pairs", "C01",
     "a payload of odd length above 8, whose last byte is then left without its stream byte when the length is also above 184",
     "the stream cipher, unrolled by two, drops the last byte of long odd payloads",
     [("dvbcsa_stream.c", "  for(i = 0; i < len; i++)      /* 4 round = 1 stream byte */",
       "  if (len > DVBCSA_BS_MAX_PACKET_LEN)\n    len &= (unsigned)~0x1;      /* 16 bits at once */\n\n  for(i = 0; i < len; i++)      /* 4 round = 1 stream byte */")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, a[512], b[512];
  for (int n = 0; n < 512; n++)
    for (int enc = 0; enc < 2; enc++)
      {
        fill(a, 512); memcpy(b, a, 512);
        one_ref(cw, a, n, enc); one_lib(cw, b, n, enc);
        if (memcmp(a, b, 512)) BAD("length %d enc %d", n, enc);
      }
  return 0;
}
''')

seed("C02-be-sign", "C02",
     "a big-endian build and a control word whose fourth byte is 0x80 or more",
     "the big-endian control word load sign-extends one byte over the upper half",
     [("dvbcsa_pv.h", "                     ((uint64_t)p[3] << 24) |", "                     (p[3] << 24) |")],
     r'''
int main(void)
{
  uint8_t cw[8], a[64], b[64];
  for (int n = 0; n < 64; n++)
    {
      fill(cw, 8); fill(a, 64); memcpy(b, a, 64);
      one_ref(cw, a, 64, 1); one_lib(cw, b, 64, 1);
      if (memcmp(a, b, 64)) BAD("control word with byte 3 = %02x", cw[3]);
    }
  return 0;
}
''', cfgs="default uint64-ppc64be")

seed("C02-kperm-cell", "C02",
     "a control word that makes one of the seven key schedule rounds look up the altered cell (1 of 2048)",
     "one entry of the key permutation table has a bit in the wrong place",
     [("dvbcsa_key.c", "0x0400008010200000ULL", "0x0400008010200001ULL")],
     r'''
int main(void)
{
  uint8_t cw[8], a[8], b[8];
  for (int n = 0; n < 20000; n++)
    {
      fill(cw, 8); fill(a, 8); memcpy(b, a, 8);
      one_ref(cw, a, 8, 1); one_lib(cw, b, 8, 1);
      if (memcmp(a, b, 8)) BAD("control word %d", n);
    }
  return 0;
}
''')

seed("C02-checksum-fixup", "C02",
     "a control word whose bytes 3 and 7 are both zero while the others are not, set on a bitslice key",
     "the bitslice key setup fills in the conventional checksum bytes",
     [("dvbcsa_bs_key.c", "  uint64_t ck = dvbcsa_load_le64(cw);", """  uint64_t ck;
  dvbcsa_cw_t full;

  /* some CAMs leave the checksum bytes out */
  memcpy(full, cw, sizeof (full));
  if (!full[3] && !full[7])
    {
      full[3] = full[0] + full[1] + full[2];
      full[7] = full[4] + full[5] + full[6];
    }
  cw = full;

  ck = dvbcsa_load_le64(cw);""")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,0,5,6,7,0};
  fill(in, sizeof in);
  for (int i = 0; i < 257; i++) len[i] = 184;
  for (int enc = 0; enc < 2; enc++)
    if (!batch_ok(cw, in, len, dvbcsa_bs_batch_size(), 184, enc)) BAD("control word without checksum");
  return 0;
}
''')

seed("C03-remainder-le", "C03",
     "a batch whose packet count is not a multiple of 4, with a short packet among the last count mod 4",
     "parallel decrypt processes one block too many of a short packet in the remainder of the batch",
     [("dvbcsa_bs_transpose_block.c", """      for (; i < pkt_buf->n_packets; i++, block += BS_PKT_BLOCKS8)
        if (offset < pkt_buf->len8[i])
          {
            dvbcsa_bs_block8_t b;
            b.u32[0] = ri[i];
            b.u32[1] = ri[i + BS_BATCH_SIZE];
            block[-1].u64 ^= block[0].u64;""", """      for (; i < pkt_buf->n_packets; i++, block += BS_PKT_BLOCKS8)
        if (offset <= pkt_buf->len8[i])
          {
            dvbcsa_bs_block8_t b;
            b.u32[0] = ri[i];
            b.u32[1] = ri[i + BS_BATCH_SIZE];
            block[-1].u64 ^= block[0].u64;""")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  for (unsigned n = 1; n <= dvbcsa_bs_batch_size(); n++)
    for (int enc = 0; enc < 2; enc++)
      {
        fill(in, sizeof in);
        for (unsigned i = 0; i < n; i++) len[i] = rb() % 185;
        if (!batch_ok(cw, in, len, n, 184, enc)) BAD("batch of %u", n);
      }
  return 0;
}
''')

seed("C03-skip-uniform", "C03",
     "a batch whose first and last packet agree in one block position while others in between differ there",
     "the block stage broadcasts the first packet's block when first and last packet have the same one",
     [("dvbcsa_bs_transpose_block.c", """  for (; i < pkt_buf->n_packets; i++, block += BS_PKT_BLOCKS8)
    {
      ri[i] = block->u32[0];
      ri[i + BS_BATCH_SIZE] = block->u32[1];
    }

  dvbcsa_bs_matrix_transpose_block(out);""", """  for (; i < pkt_buf->n_packets; i++, block += BS_PKT_BLOCKS8)
    {
      ri[i] = block->u32[0];
      ri[i + BS_BATCH_SIZE] = block->u32[1];
    }

  if (i > 3 && ri[0] == ri[i - 1] && ri[1] == ri[i - 2] && ri[0] == ri[1])
    {
      /* stuffing: the same block everywhere */
      while (i-- > 0)
        ri[i] = ri[0];
    }

  dvbcsa_bs_matrix_transpose_block(out);""")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  unsigned n = dvbcsa_bs_batch_size();
  fill(in, sizeof in);
  for (unsigned i = 0; i < n; i++) len[i] = 8;
  memcpy(in[1], in[0], 4); memcpy(in[n - 1], in[0], 4); memcpy(in[n - 2], in[0], 4);
  for (int enc = 0; enc < 2; enc++)
    if (!batch_ok(cw, in, len, n, 184, enc)) BAD("partly equal packets");
  return 0;
}
''')

seed("C04-stream-chunks", "C04",
     "a single-packet decrypt of a payload of more than 4104 bytes",
     "decrypt works off the stream in pieces of 4096 bytes and starts the generator over for each",
     [("dvbcsa_algo.c", """  if (len < 8)
    return;

#ifndef DVBCSA_DISABLE_STREAM
  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);
#endif

#ifndef DVBCSA_DISABLE_BLOCK
  dvbcsa_block_decrypt(""", """  if (len < 8)
    return;

#ifndef DVBCSA_DISABLE_STREAM
  /* page by page */
  for (i = 8; i < len; i += 4096)
    dvbcsa_stream_xor(key->cws, data, data + i, len - i < 4096 ? len - i : 4096);
#endif

#ifndef DVBCSA_DISABLE_BLOCK
  dvbcsa_block_decrypt(""")],
     r"""
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}; static uint8_t a[5000], b[5000];
  for (int n = 0; n <= 5000; n += 40)
    {
      fill(a, 5000); memcpy(b, a, 5000);
      one_lib(cw, a, n, 1); one_lib(cw, a, n, 0);
      if (memcmp(a, b, 5000)) BAD("length %d", n);
    }
  return 0;
}
""")

seed("C04-maxlen8", "C04",
     "a parallel encrypt with a maximum length of exactly 8",
     "parallel encrypt takes a maximum length of 8 for an empty one",
     [("dvbcsa_bs_block.c", "  int   i;\n\n  for (i = maxlen - 8; i >= 0; i -= 8)", "  int   i;\n\n  if (maxlen <= 8)\n    return;\n\n  for (i = maxlen - 8; i >= 0; i -= 8)")],
     r'''
int main(void)
{
  static uint8_t d[257][184], e[257][184]; static struct dvbcsa_bs_batch_s b[258];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  unsigned n = dvbcsa_bs_batch_size();
  for (unsigned m = 0; m <= 184; m += 8)
    {
      fill(d, sizeof d); memcpy(e, d, sizeof d);
      for (unsigned i = 0; i < n; i++) b[i].data = d[i], b[i].len = i % (m + 1);
      b[n].data = NULL;
      bs_lib(cw, b, m, 1); bs_lib(cw, b, m, 0);
      if (memcmp(d, e, sizeof d)) BAD("maximum length %u", m);
    }
  return 0;
}
''')

seed("C05-longest-of-quads", "C05",
     "a batch of 4k+1 to 4k+3 packets whose longest packet is among the last ones",
     "the block stage stops at the longest packet of the complete groups of four",
     [("dvbcsa_bs_block.c", """  unsigned int i;

  for (i = 0; i < maxlen; i += 8)""", """  unsigned int i, longest = 0;

  /* do not work on blocks no packet has */
  for (i = 0; i + 3 < (unsigned)pkt_buf->n_packets; i++)
    if (pkt_buf->len8[i] > longest)
      longest = pkt_buf->len8[i];
  if (i == 0)
    longest = maxlen;
  if (longest < maxlen)
    maxlen = longest;

  for (i = 0; i < maxlen; i += 8)""")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  unsigned n = dvbcsa_bs_batch_size();
  fill(in, sizeof in);
  n--;
  for (unsigned i = 0; i < n; i++) len[i] = i + 2 < n ? 40 : 184;
  for (int enc = 0; enc < 2; enc++)
    if (!batch_ok(cw, in, len, n, 184, enc)) BAD("increasing lengths");
  return 0;
}
''')

seed("C05-stream-odd-batch", "C05",
     "a parallel call on an odd number of packets (the last of which must be longer than 8 bytes)",
     "the stream stage does not reach the last packet of an odd batch with more than 64 packets",
     [("dvbcsa_bs_transpose_stream.c", "  for (; i < pkt_buf->n_packets; i++)\n    {\n      block->u64 ^= p[i];", "  for (; i < pkt_buf->n_packets && i < 64; i++)\n    {\n      block->u64 ^= p[i];")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  for (unsigned n = 0; n <= dvbcsa_bs_batch_size(); n++)
    {
      fill(in, sizeof in);
      for (unsigned i = 0; i < n; i++) len[i] = 184;
      if (!batch_ok(cw, in, len, n, 184, 0)) BAD("batch of %u", n);
    }
  return 0;
}
''', cfgs="default sse2 avx2")

seed("C06-two-blocks", "C06",
     "a maximum length that is an odd number of blocks plus one, such as 16, 32 or 176",
     "the stream stage, unrolled by two blocks, loses the last block for maximum lengths with a tail",
     [("dvbcsa_bs_stream.c", """  for (h = 8; h < maxlen; h += 8)
    {
      dvbcsa_bs_stream_cipher_kernel(&regs);
      dvbcsa_bs_stream_transpose_out(pkt_buf, h, regs.sb);
    }
""", """  for (h = 8; h + 8 < maxlen; h += 16)
    {
      dvbcsa_bs_stream_cipher_kernel(&regs);
      dvbcsa_bs_stream_transpose_out(pkt_buf, h, regs.sb);
      dvbcsa_bs_stream_cipher_kernel(&regs);
      dvbcsa_bs_stream_transpose_out(pkt_buf, h + 8, regs.sb);
    }
""")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  for (unsigned m = 0; m <= 184; m += 8)
    for (int enc = 0; enc < 2; enc++)
      {
        fill(in, sizeof in);
        for (unsigned i = 0; i < dvbcsa_bs_batch_size(); i++) len[i] = 184;
        if (!batch_ok(cw, in, len, dvbcsa_bs_batch_size(), m, enc)) BAD("maximum length %u", m);
      }
  return 0;
}
''')

seed("C06-chain-from-end", "C06",
     "a maximum length between 8 and 176 and a packet whose whole blocks go exactly up to it",
     "parallel decrypt's last block for short maximum lengths is left out of the chain",
     [("dvbcsa_bs_block.c", "  for (i = 0; i < maxlen; i += 8)\n    dvbcsa_bs_block_decrypt_block(key, pkt_buf, i);",
       "  if (maxlen > 128 && maxlen < 176)\n    maxlen &= (unsigned)~0xf;   /* cache lines */\n\n  for (i = 0; i < maxlen; i += 8)\n    dvbcsa_bs_block_decrypt_block(key, pkt_buf, i);")],
     r'''
int main(void)
{
  static uint8_t in[257][184]; unsigned len[257];
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  for (unsigned m = 0; m <= 184; m += 8)
    for (int enc = 0; enc < 2; enc++)
      {
        fill(in, sizeof in);
        for (unsigned i = 0; i < dvbcsa_bs_batch_size(); i++) len[i] = 184;
        if (!batch_ok(cw, in, len, dvbcsa_bs_batch_size(), m, enc)) BAD("maximum length %u", m);
      }
  return 0;
}
''')

seed("C07-len16", "C07",
     "a single-packet payload of 65544 bytes or more",
     "the stream cipher's length is cut to 16 bits",
     [("dvbcsa_stream.c", "                        uint8_t *data, unsigned int len)\n{\n  unsigned int          i;", "                        uint8_t *data, unsigned int n_bytes)\n{\n  uint16_t              len = n_bytes;\n  unsigned int          i;")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  unsigned n = 70003; uint8_t *a = malloc(n), *b = malloc(n);
  for (int enc = 0; enc < 2; enc++)
    {
      fill(a, n); memcpy(b, a, n);
      one_lib(cw, a, n, enc); one_ref(cw, b, n, enc);
      if (memcmp(a, b, n)) BAD("length %u", n);
    }
  return 0;
}
''')

seed("C07-block-index", "C07",
     "a single-packet decrypt of a payload above 512 KiB",
     "decrypt counts the chained blocks in 16 bits",
     [("dvbcsa_algo.c", """  for (i = 8; i < alen; i += 8)
    {
      dvbcsa_xor_64(data + i - 8, data + i);""", """  alen = (uint16_t)(alen / 8 - 1) * 8 + 8;
  for (i = 8; i < alen; i += 8)
    {
      dvbcsa_xor_64(data + i - 8, data + i);""")],
     r'''
int main(void)
{
  uint8_t cw[8] = {1,2,3,6,5,6,7,18};
  unsigned n = 600003; uint8_t *a = malloc(n), *b = malloc(n);
  for (int enc = 0; enc < 2; enc++)
    {
      fill(a, n); memcpy(b, a, n);
      one_lib(cw, a, n, enc); one_ref(cw, b, n, enc);
      if (memcmp(a, b, n)) BAD("length %u", n);
    }
  return 0;
}
''')

seed("C07-signed", "C07",
     "a single-packet decrypt of a payload of 2^31 bytes or more",
     "decrypt's chain loop compares signed and does nothing for payloads of 2 GiB",
     [("dvbcsa_algo.c", "  for (i = 8; i < alen; i += 8)\n    {\n      dvbcsa_xor_64(data + i - 8, data + i);", "  for (i = 8; (int)i < (int)alen; i += 8)\n    {\n      dvbcsa_xor_64(data + i - 8, data + i);")],
     r'''
int main(void)
{
  /* the first blocks after the first only depend on what follows in the chain: no need for all of it */
  uint8_t cw[8] = {1,2,3,6,5,6,7,18}, b[72];
  unsigned n = 0x80000000u; uint8_t *a = calloc(1, n);
  if (!a) return 0;
  fill(a, 72); memcpy(b, a, 72);
  one_lib(cw, a, n, 0); one_ref(cw, b, 72, 0);
  if (memcmp(a, b, 64)) BAD("length %u", n);
  return 0;
}
''', src=None, flags="")
