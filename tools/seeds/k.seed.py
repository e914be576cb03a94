LEAVE = r'''
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <ucontext.h>
/* leave a call for good at its n-th instruction */
static sigjmp_buf jb; static volatile int arm; static volatile long left;
static void step(int on) { arm = on ? 1 : 2; raise(SIGTRAP); }
static void trap(int s, siginfo_t *i, void *u)
{
  ucontext_t *c = u; (void)s; (void)i;
  if (arm) { if (arm == 1) c->uc_mcontext.gregs[REG_EFL] |= 0x100; else c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; arm = 0; return; }
  if (left-- > 0) return;
  siglongjmp(jb, 1);
}
static void leave_init(void)
{
  struct sigaction sa;
  memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, NULL);
}
#define LEAVE(n, call) ({ int r_ = 1; left = (n); if (!sigsetjmp(jb, 0)) { step(1); call; step(0); r_ = 0; } arm = 0; __asm__ volatile("emms"); r_; })
'''

seed("C20-set-again", "C20",
     "a thread cancelled while it sets a context, which is then set again with the same control word",
     "setting the control word a context already holds is skipped; the word is noted before the key schedule is made",
     [("dvbcsa_block.c", "  uint64_t a = dvbcsa_load_le64(cw);\n  dvbcsa_store_le64(key->cw,  a);\n", "  uint64_t a = dvbcsa_load_le64(cw);\n\n  /* unused contexts have an all zero word */\n  if (a && a == dvbcsa_load_le64(key->cw))\n    return;\n\n  dvbcsa_store_le64(key->cw,  a);\n"),
      ("dvbcsa_algo.c", "  return (struct dvbcsa_key_s *)malloc(sizeof (struct dvbcsa_key_s));\n", "  return (struct dvbcsa_key_s *)calloc(1, sizeof (struct dvbcsa_key_s));\n")],
     LEAVE + r'''
int main(void)
{
  uint8_t p[37], q[37]; long n;
  leave_init();
  for (n = 0; ; n += 13)
    {
      struct dvbcsa_key_s *k = dvbcsa_key_alloc(); int r;
      r = LEAVE(n, dvbcsa_key_set((const uint8_t *)"abcdefgh", k));
      dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
      memset(p, n, 37); memcpy(q, p, 37);
      dvbcsa_decrypt(k, p, 37); one_ref((const uint8_t *)"abcdefgh", q, 37, 0);
      if (memcmp(p, q, 37)) BAD("a context whose setting was abandoned at instruction %ld and done again does not work", n);
      dvbcsa_key_free(k);
      if (!r) break;
    }
  return 0;
}
''')

seed("C20-work-areas", "C20",
     "a hundred parallel calls whose threads were cancelled inside them",
     "the packet copies live in one of a hundred static work areas, claimed for the time of the call; a call that finds none free waits for one",
     [("dvbcsa_bs_algo.c", "void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,\n                       const struct dvbcsa_bs_batch_s *pcks,\n                       unsigned int maxlen)\n{\n  struct dvbcsa_bs_pkt_buf pbuf;\n", "/* work areas, too large for small stacks */\n#define DVBCSA_AREAS 100\nstatic struct dvbcsa_bs_pkt_buf dvbcsa_areas[DVBCSA_AREAS];\nstatic int dvbcsa_taken[DVBCSA_AREAS];\n\nvoid dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,\n                       const struct dvbcsa_bs_batch_s *pcks,\n                       unsigned int maxlen)\n{\n  struct dvbcsa_bs_pkt_buf *pbuf;\n  unsigned int area = 0;\n"),
      ("dvbcsa_bs_algo.c", "  dvbcsa_pkt_buf_load(&pbuf, pcks, maxlen);\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_bs_stream_cipher_batch(key, &pbuf, maxlen);\n#endif\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_bs_block_decrypt_batch(key, &pbuf, maxlen);\n#endif\n\n  BS_EMPTY ();                  // restore CPU multimedia state\n\n  dvbcsa_pkt_buf_store(&pbuf, pcks);\n}\n", "  while (__atomic_exchange_n(&dvbcsa_taken[area], 1, __ATOMIC_ACQUIRE))\n    area = (area + 1) % DVBCSA_AREAS;\n  pbuf = &dvbcsa_areas[area];\n\n  dvbcsa_pkt_buf_load(pbuf, pcks, maxlen);\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_bs_stream_cipher_batch(key, pbuf, maxlen);\n#endif\n#ifndef DVBCSA_DISABLE_BLOCK\n  dvbcsa_bs_block_decrypt_batch(key, pbuf, maxlen);\n#endif\n\n  BS_EMPTY ();                  // restore CPU multimedia state\n\n  dvbcsa_pkt_buf_store(pbuf, pcks);\n  __atomic_store_n(&dvbcsa_taken[area], 0, __ATOMIC_RELEASE);\n}\n")],
     LEAVE + r'''
static void late(int s) { (void)s; if (write(1, "FAILS: a parallel call does not return after 120 abandoned ones\n", 65) < 0) {} _exit(1); }
int main(void)
{
  static uint8_t d[184], e[184]; int i;
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  struct dvbcsa_bs_batch_s b[2] = { { d, 184 }, { NULL, 0 } };
  leave_init(); signal(SIGALRM, late); alarm(60);
  dvbcsa_bs_key_set((const uint8_t *)"abcdefgh", k);
  for (i = 0; i < 120; i++) (void)LEAVE(3000, dvbcsa_bs_decrypt(k, b, 184));
  memset(d, 9, 184); memset(e, 9, 184);
  dvbcsa_bs_decrypt(k, b, 184); one_ref((const uint8_t *)"abcdefgh", e, 184, 0);
  if (memcmp(d, e, 184)) BAD("a parallel call after 120 abandoned ones is wrong");
  return 0;
}
''')

seed("C20-depth-limit", "C20",
     "a thread that has jumped out of more than a hundred calls",
     "calls count how deep they are nested in their thread, to stop runaway signal handlers; a call left by a jump is counted for ever",
     [("dvbcsa_algo.c", "void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n", "static __thread volatile int dvbcsa_nesting;\n\nvoid dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)\n{\n  unsigned int  alen = len & (unsigned)~0x7;\n  unsigned int  i;\n\n  if (len < 8)\n    return;\n\n  /* a handler that keeps interrupting itself would use up the stack */\n  if (dvbcsa_nesting >= 100)\n    return;\n  dvbcsa_nesting++;\n"),
      ("dvbcsa_algo.c", "      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);\n    }\n#endif\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);\n#endif\n", "      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);\n    }\n#endif\n\n#ifndef DVBCSA_DISABLE_STREAM\n  dvbcsa_stream_xor(key->cws, data, data + 8, len - 8);\n#endif\n  dvbcsa_nesting--;\n")],
     LEAVE + r'''
int main(void)
{
  static uint8_t d[184], e[184]; int i;
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  leave_init();
  dvbcsa_key_set((const uint8_t *)"abcdefgh", k);
  for (i = 0; i < 150; i++) (void)LEAVE(900, dvbcsa_encrypt(k, d, 184));
  memset(d, 9, 184); memset(e, 9, 184);
  dvbcsa_encrypt(k, d, 184); one_ref((const uint8_t *)"abcdefgh", e, 184, 1);
  if (memcmp(d, e, 184)) BAD("encrypt after 150 abandoned calls is wrong");
  return 0;
}
''')
