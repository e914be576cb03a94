/* Reference model of the DVB Common Scrambling Algorithm.
 *
 * Written from the published description of the algorithm (the one used by
 * VLC's csa.c and the FFdecsa documentation), in terms of 4-bit registers and
 * 8-byte blocks; shares no code or table layout with libdvbcsa.  It is the
 * oracle of every check, so it is kept boring: one function per cipher stage.
 */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>

typedef struct { uint8_t cw[8]; uint8_t kk[56]; } ref_key;

void ref_set(ref_key *k, const uint8_t cw[8]);
void ref_encrypt(const ref_key *k, uint8_t *data, size_t len);
void ref_decrypt(const ref_key *k, uint8_t *data, size_t len);

/* the two stages on their own, for payloads too long to keep twice in memory */
typedef struct {
  uint8_t a[64], b[64];         /* a[ia+n] is cell n of register A */
  int ia;
  uint8_t X, Y, Z, D, E, F, p, q, r;
} ref_stream;
void ref_stream_init(ref_stream *s, const ref_key *k, const uint8_t iv[8]);
void ref_stream_xor(ref_stream *s, uint8_t *data, size_t len);
void ref_stream_xor_fast(ref_stream *s, uint8_t *data, size_t len);
void ref_block_decrypt(const ref_key *k, const uint8_t in[8], uint8_t out[8]);
void ref_block_encrypt(const ref_key *k, const uint8_t in[8], uint8_t out[8]);

/* internal consistency of the model itself (bijections, published vectors);
 * returns 0 if fine */
int ref_selftest(void);

/* transition coverage of the model (counted only in the -DREF_COV build) */
typedef struct {
  uint32_t block_enc[56][256], block_dec[56][256]; /* (round, S-box index) */
  uint32_t sbox[7][32];       /* stream S-box index */
  uint32_t adder[2][2][16][16]; /* q, carry, Z, E */
  uint32_t rot[2][16];        /* p, T2 nibble */
  uint32_t out[16];           /* D nibble to output bits */
  uint32_t kbyte[6][8][256];  /* key permutation round, byte, value */
} ref_cov_t;
extern ref_cov_t ref_cov;
void ref_cov_count(unsigned long *hit, unsigned long *total);
#endif
