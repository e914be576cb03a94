STEP = r'''
#include <signal.h>
#include <ucontext.h>
static volatile int on, arm, every = 1; static unsigned long at; static void (*inner)(void);
static void trap(int s, siginfo_t *i, void *v)
{
  ucontext_t *u = v; (void)s; (void)i;
  if (arm) { if (arm == 1) u->uc_mcontext.gregs[REG_EFL] |= 0x100; else u->uc_mcontext.gregs[REG_EFL] &= ~0x100l; arm = 0; return; }
  if (on && ++at % every == 0) inner();
}
static void step(int o)
{
  static int init;
  if (!init) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, 0); init = 1; }
  if (o) { at = 0; arm = 1; raise(SIGTRAP); on = 1; } else { on = 0; arm = 2; raise(SIGTRAP); }
}
static const uint8_t cw1[8] = "controlW", cw2[8] = { 9,8,7,6,5,4,3,2 };
static struct dvbcsa_key_s *k1, *k2; static struct dvbcsa_bs_key_s *b1, *b2;
static uint8_t p1[32], p2[32], e1[32], e2[32], w1[32], w2[32]; static struct dvbcsa_bs_batch_s t1[2] = { { p1, 0 } }, t2[2] = { { p2, 0 } };
static void prep(unsigned n, int enc)
{
  if (!k1) { k1 = dvbcsa_key_alloc(); k2 = dvbcsa_key_alloc(); b1 = dvbcsa_bs_key_alloc(); b2 = dvbcsa_bs_key_alloc();
    dvbcsa_key_set(cw1, k1); dvbcsa_key_set(cw2, k2); dvbcsa_bs_key_set(cw1, b1); dvbcsa_bs_key_set(cw2, b2); }
  fill(w1, 32); fill(w2, 32); memcpy(e1, w1, 32); memcpy(e2, w2, 32); memcpy(p1, w1, 32); memcpy(p2, w2, 32);
  one_ref(cw1, e1, n, enc); one_ref(cw2, e2, n, enc); t1[0].len = t2[0].len = n;
}
'''

seed("C17-tls-packets", "C17",
     "a parallel call made from a signal handler while another parallel call runs in the same thread",
     "the parallel calls keep their packet copies in thread-local instead of automatic storage",
     [("dvbcsa_bs_algo.c", "  struct dvbcsa_bs_pkt_buf pbuf;\n", "  static __thread struct dvbcsa_bs_pkt_buf pbuf;\n", 2)],
     STEP + r'''
static void in(void) { memcpy(p2, w2, 32); dvbcsa_bs_encrypt(b2, t2, 16); if (memcmp(p2, e2, 32)) BAD("nested call wrong"); }
int main(void)
{
  prep(16, 1); inner = in; every = 97;
  step(1); dvbcsa_bs_encrypt(b1, t1, 16); step(0);
  if (memcmp(p1, e1, 32)) BAD("interrupted call wrong");
  return 0;
}
''', cfgs="default sse2 avx2")


seed("C17-busy-flag", "C17",
     "a parallel call interrupted twice by other parallel calls in the same thread (one interruption is handled)",
     "the stream registers live in a thread-local structure, nested calls use an automatic one but drop the in-use mark when they end",
     [("dvbcsa_bs_stream.c", "  struct dvbcsa_bs_stream_regs_s regs;\n", "  static __thread struct dvbcsa_bs_stream_regs_s common;\n  static __thread volatile int in_use;\n  struct dvbcsa_bs_stream_regs_s own, *r = in_use ? &own : &common;\n"),
      ("dvbcsa_bs_stream.c", "&regs", "r", 2),
      ("dvbcsa_bs_stream.c", "regs.", "r->", 17),
      ("dvbcsa_bs_stream.c", "  dvbcsa_bs_stream_transpose_in(", "  in_use = 1;\n\n  dvbcsa_bs_stream_transpose_in("),
      ("dvbcsa_bs_stream.c", "    }\n\n}\n", "    }\n\n  in_use = 0;\n}\n")],
     STEP + r"""
static void in(void) { memcpy(p2, w2, 32); dvbcsa_bs_decrypt(b2, t2, 16); if (memcmp(p2, e2, 32)) BAD("nested call wrong"); }
int main(void)
{
  prep(16, 0); inner = in; every = 501;
  step(1); dvbcsa_bs_decrypt(b1, t1, 16); step(0);
  if (memcmp(p1, e1, 32)) BAD("interrupted call wrong");
  return 0;
}
""", cfgs="default sse2 avx2")

seed("C17-key-temp", "C17",
     "key setup in a signal handler that interrupts key setup in the same thread",
     "the round keys are expanded in thread-local storage",
     [("dvbcsa_key.c", "  uint64_t k[7];\n", "  static __thread volatile uint64_t k[7];\n")],
     STEP + r"""
static void in(void) { dvbcsa_bs_key_set(cw2, b2); }
int main(void)
{
  prep(16, 1); inner = in; every = 13;
  step(1); dvbcsa_key_set(cw1, k1); step(0);
  dvbcsa_encrypt(k1, p1, 16);
  if (memcmp(p1, e1, 32)) BAD("interrupted key setup wrong");
  return 0;
}
""")
