/* shared by the demonstrations: an independent reference and small helpers */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "dvbcsa/dvbcsa.h"
#include "ref.h"
#define BAD(...) do { printf("FAILS: " __VA_ARGS__); puts(""); exit(1); } while (0)
static uint32_t h_s = 12345;
static inline uint8_t rb(void) { h_s = h_s * 1664525u + 1013904223u; return h_s >> 24; }
static inline void fill(void *p, size_t n) { uint8_t *b = p; while (n--) *b++ = rb(); }
static inline void one_ref(const uint8_t *cw, uint8_t *d, size_t n, int enc)
{ ref_key k; ref_set(&k, cw); (enc ? ref_encrypt : ref_decrypt)(&k, d, n); }
static inline void one_lib(const uint8_t *cw, uint8_t *d, unsigned n, int enc)
{ struct dvbcsa_key_s *k = dvbcsa_key_alloc(); dvbcsa_key_set(cw, k);
  (enc ? dvbcsa_encrypt : dvbcsa_decrypt)(k, d, n); dvbcsa_key_free(k); }
static inline void bs_lib(const uint8_t *cw, const struct dvbcsa_bs_batch_s *b, unsigned m, int enc)
{ struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set(cw, k);
  (enc ? dvbcsa_bs_encrypt : dvbcsa_bs_decrypt)(k, b, m); dvbcsa_bs_key_free(k); }
/* one batch against the reference; len[i] bytes each, content already in in[] */
static inline int batch_ok(const uint8_t *cw, uint8_t (*in)[184], const unsigned *len, unsigned n, unsigned m, int enc)
{
  static uint8_t d[257][184], e[257][184];
  static struct dvbcsa_bs_batch_s b[258];
  unsigned i;
  for (i = 0; i < n; i++)
    {
      memcpy(d[i], in[i], 184); memcpy(e[i], in[i], 184);
      b[i].data = d[i]; b[i].len = len[i];
      one_ref(cw, e[i], len[i] < m ? len[i] : m, enc);
    }
  b[n].data = NULL;
  bs_lib(cw, b, m, enc);
  for (i = 0; i < n; i++)
    if (memcmp(d[i], e[i], 184)) return 0;
  return 1;
}
