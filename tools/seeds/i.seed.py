seed("C12-float-count", "C12",
     "the caller runs with another floating-point rounding mode than to nearest",
     "decrypt counts the whole blocks in floating point, rounding by adding and taking away 1.5 * 2^52: with upward rounding a partial block counts as whole",
     [("dvbcsa_algo.c", "void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n", "static unsigned int dvbcsa_whole_blocks(unsigned int len)\n{\n  const double magic = 6755399441055744.0;\n  volatile double n = len / 8.0 - 0.46875;\n\n  n += magic;\n  n -= magic;\n  return (unsigned int)n;\n}\n\nvoid dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = dvbcsa_whole_blocks(len) * 8;\n")],
     r'''
#include <fenv.h>
int main(void)
{
  static const int m[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
  uint8_t d[80], e[80]; int i; unsigned l;
  for (i = 0; i < 4; i++) for (l = 0; l < 72; l++)
    { fill(d, 80); memcpy(e, d, 80); one_ref((const uint8_t *)"abcdefgh", e, l, 0); fesetround(m[i]); one_lib((const uint8_t *)"abcdefgh", d, l, 0); fesetround(FE_TONEAREST); if (memcmp(d, e, 80)) BAD("rounding mode %d, length %u", i, l); }
  return 0;
}
''', flags="-lm")

seed("C12-env-debug", "C12",
     "an environment variable set when the first context is allocated",
     "a left-over switch: with CSA_PLAIN_TAIL in the environment the bytes behind the last whole block stay in the clear",
     [("dvbcsa_algo.c", "struct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n", "static unsigned int csa_tail_mask = ~0u;\n\nstruct dvbcsa_key_s * dvbcsa_key_alloc(void)\n{\n  if (getenv(\"CSA_PLAIN_TAIL\"))\n    csa_tail_mask = ~7u;\n\n"),
      ("dvbcsa_algo.c", "void dvbcsa_decrypt (const struct dvbcsa_key_s *key", "static unsigned int csa_tail_mask;\n\nvoid dvbcsa_decrypt (const struct dvbcsa_key_s *key"),
      ("dvbcsa_algo.c", "  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n#ifndef DVBCSA_DISABLE_STREAM\n", "  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n  len &= csa_tail_mask;\n\n#ifndef DVBCSA_DISABLE_STREAM\n", 1)],
     r'''
int main(void)
{
  uint8_t d[21], e[21]; int i;
  for (i = 0; i < 2; i++)
    {
      if (i) setenv("CSA_PLAIN_TAIL", "1", 1);
      fill(d, 21); memcpy(e, d, 21); one_lib((const uint8_t *)"abcdefgh", d, 21, 0); one_ref((const uint8_t *)"abcdefgh", e, 21, 0);
      if (memcmp(d, e, 21)) BAD("the environment decides about the residue");
    }
  return 0;
}
''')

seed("C19-lrand48", "C19",
     "a program using lrand48 and freeing a context",
     "freeing a context first overwrites its start with random numbers from lrand48",
     [("dvbcsa_algo.c", "void dvbcsa_key_free(struct dvbcsa_key_s *key)\n{\n", "void dvbcsa_key_free(struct dvbcsa_key_s *key)\n{\n  /* leave no control word behind */\n  if (key)\n    *(volatile uint32_t *)key = (uint32_t)lrand48();\n\n")],
     r'''
int main(void)
{
  long a, b; struct dvbcsa_key_s *k;
  srand48(5); lrand48(); a = lrand48();
  srand48(5); lrand48(); k = dvbcsa_key_alloc(); dvbcsa_key_free(k); b = lrand48();
  if (a != b) BAD("lrand48 gives another number");
  return 0;
}
''')

seed("C19-unbuffered", "C19",
     "a program writing to stdout after its first parallel context",
     "allocating a parallel context makes stdout unbuffered, for the word dumps of debug builds",
     [("dvbcsa_bs_algo.c", "struct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc(void)\n{\n  void *p;\n", "struct dvbcsa_bs_key_s * dvbcsa_bs_key_alloc(void)\n{\n  void *p;\n\n  setvbuf(stdout, NULL, _IOLBF, 0);\n"),
      ("dvbcsa_bs_algo.c", "#if defined(DVBCSA_DEBUG)\n#include <stdio.h>\n#endif\n", "#include <stdio.h>\n")],
     r'''
#include <stdio_ext.h>
int main(void)
{
  struct dvbcsa_bs_key_s *k; FILE *f = freopen("/dev/null", "w", stdout); if (!f) return 0;
  setvbuf(stdout, NULL, _IOFBF, 4096); fputs("a\n", stdout); fflush(stdout);
  k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_free(k);
  if (__flbf(stdout) || __fbufsize(stdout) != 4096) { fprintf(stderr, "FAILS: the buffering of stdout has changed\n"); return 1; }
  return 0;
}
''')

seed("C16-bit-count", "C16",
     "a payload of 2^28 bytes or more",
     "the stream cipher counts bits in a signed int: the multiplication overflows (the same bytes come out where overflow wraps)",
     [("dvbcsa_stream.c", "  for(i = 0; i < len; i++)      /* 4 round = 1 stream byte */\n", "  int bits = (int)len;\n\n  bits = bits * 8;\n  for(i = 0; i < (unsigned)bits / 8 + (len & 0xe0000000u); i++)      /* 4 round = 1 stream byte */\n")],
     r'''
int main(void)
{
  /* (built to stop at undefined behaviour) */
  struct dvbcsa_key_s *k = dvbcsa_key_alloc(); uint8_t *d = calloc(1, (1u << 28) + 16);
  if (!d) return 0;
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k); dvbcsa_encrypt(k, d, (1u << 28) + 8);
  return 0;
}
''', src="", flags="-O2 -fsanitize=undefined -fsanitize-undefined-trap-on-error")
