/* Cheap stand-ins for the cipher primitives: linked with the library's chaining
 * code alone they make payloads of gigabytes affordable.  The oracle of the
 * lens_stub mode (value.c) uses the same functions (stubfn.h). */
#include "dvbcsa/dvbcsa.h"
#include "dvbcsa_pv.h"
#include "stubfn.h"
void dvbcsa_key_set(const dvbcsa_cw_t cw, struct dvbcsa_key_s *key)
{
  memcpy(key->cw, cw, 8); memcpy(key->cws, cw, 8); memset(key->sch, cw[0], 56);
}
void dvbcsa_block_decrypt(const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{ uint64_t w; (void)key; memcpy(&w, in, 8); w = stub_dec(w); memcpy(out, &w, 8); }
void dvbcsa_block_encrypt(const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{ uint64_t w; (void)key; memcpy(&w, in, 8); w = stub_enc(w); memcpy(out, &w, 8); }
void dvbcsa_stream_xor(const dvbcsa_cw_t cw, const dvbcsa_block_t iv, uint8_t *stream, unsigned int len)
{ uint64_t v; (void)cw; memcpy(&v, iv, 8); stub_xor(v, stream, 0, len); }
struct dvbcsa_bs_key_s *dvbcsa_bs_key_alloc(void) { return 0; }
void dvbcsa_bs_key_free(struct dvbcsa_bs_key_s *k) { (void)k; }
void dvbcsa_bs_key_set(const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *k) { (void)cw; (void)k; }
unsigned int dvbcsa_bs_batch_size(void) { return 64; }
void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *k, const struct dvbcsa_bs_batch_s *p, unsigned int m) { (void)k; (void)p; (void)m; }
void dvbcsa_bs_encrypt(const struct dvbcsa_bs_key_s *k, const struct dvbcsa_bs_batch_s *p, unsigned int m) { (void)k; (void)p; (void)m; }
