#include "ref.h"
#include <string.h>

ref_cov_t ref_cov;
#ifdef REF_COV
# define COV(x) (ref_cov.x++)
#else
# define COV(x) ((void)0)
#endif

/* bit n (1 = most significant bit of byte 0) moves to bit key_perm[n] */
static const uint8_t key_perm[64] = {
  0x12,0x24,0x09,0x07,0x2A,0x31,0x1D,0x15,0x1C,0x36,0x3E,0x32,0x13,0x21,0x3B,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1B,0x01,0x22,0x04,0x0D,0x0E,0x39,0x28,0x1A,0x29,
  0x33,0x23,0x34,0x0C,0x16,0x30,0x1E,0x3A,0x2D,0x1F,0x08,0x19,0x17,0x2F,0x3D,0x11,
  0x3C,0x05,0x38,0x2B,0x0B,0x06,0x0A,0x2C,0x20,0x3F,0x2E,0x0F,0x03,0x26,0x10,0x37,
};

static const uint8_t block_sbox[256] = {
  0x3A,0xEA,0x68,0xFE,0x33,0xE9,0x88,0x1A,0x83,0xCF,0xE1,0x7F,0xBA,0xE2,0x38,0x12,
  0xE8,0x27,0x61,0x95,0x0C,0x36,0xE5,0x70,0xA2,0x06,0x82,0x7C,0x17,0xA3,0x26,0x49,
  0xBE,0x7A,0x6D,0x47,0xC1,0x51,0x8F,0xF3,0xCC,0x5B,0x67,0xBD,0xCD,0x18,0x08,0xC9,
  0xFF,0x69,0xEF,0x03,0x4E,0x48,0x4A,0x84,0x3F,0xB4,0x10,0x04,0xDC,0xF5,0x5C,0xC6,
  0x16,0xAB,0xAC,0x4C,0xF1,0x6A,0x2F,0x3C,0x3B,0xD4,0xD5,0x94,0xD0,0xC4,0x63,0x62,
  0x71,0xA1,0xF9,0x4F,0x2E,0xAA,0xC5,0x56,0xE3,0x39,0x93,0xCE,0x65,0x64,0xE4,0x58,
  0x6C,0x19,0x42,0x79,0xDD,0xEE,0x96,0xF6,0x8A,0xEC,0x1E,0x85,0x53,0x45,0xDE,0xBB,
  0x7E,0x0A,0x9A,0x13,0x2A,0x9D,0xC2,0x5E,0x5A,0x1F,0x32,0x35,0x9C,0xA8,0x73,0x30,
  0x29,0x3D,0xE7,0x92,0x87,0x1B,0x2B,0x4B,0xA5,0x57,0x97,0x40,0x15,0xE6,0xBC,0x0E,
  0xEB,0xC3,0x34,0x2D,0xB8,0x44,0x25,0xA4,0x1C,0xC7,0x23,0xED,0x90,0x6E,0x50,0x00,
  0x99,0x9E,0x4D,0xD9,0xDA,0x8D,0x6F,0x5F,0x3E,0xD7,0x21,0x74,0x86,0xDF,0x6B,0x05,
  0x8E,0x5D,0x37,0x11,0xD2,0x28,0x75,0xD6,0xA7,0x77,0x24,0xBF,0xF0,0xB0,0x02,0xB7,
  0xF8,0xFC,0x81,0x09,0xB1,0x01,0x76,0x91,0x7D,0x0F,0xC8,0xA0,0xF2,0xCB,0x78,0x60,
  0xD1,0xF7,0xE0,0xB5,0x98,0x22,0xB3,0x20,0x1D,0xA6,0xDB,0x7B,0x59,0x9F,0xAE,0x31,
  0xFB,0xD3,0xB6,0xCA,0x43,0x72,0x07,0xF4,0xD8,0x41,0x14,0x55,0x0D,0x54,0x8B,0xB9,
  0xAD,0x46,0x0B,0xAF,0x80,0x52,0x2C,0xFA,0x8C,0x89,0x66,0xFD,0xB2,0xA9,0x9B,0xC0,
};

/* output bit perm_to[b] of the permutation is input bit b */
static const uint8_t perm_to[8] = { 1, 7, 5, 4, 2, 6, 0, 3 };

static uint8_t perm_tab[256];
static int perm_ready;

static void perm_init(void)
{
  for (int v = 0; v < 256; v++) {
    uint8_t o = 0;
    for (int b = 0; b < 8; b++)
      if (v >> b & 1) o |= 1u << perm_to[b];
    perm_tab[v] = o;
  }
  perm_ready = 1;
}

static const uint8_t stream_sbox[7][32] = {
  {2,0,1,1,2,3,3,0, 3,2,2,0,1,1,0,3, 0,3,3,0,2,2,1,1, 2,2,0,3,1,1,3,0},
  {3,1,0,2,2,3,3,0, 1,3,2,1,0,0,1,2, 3,1,0,3,3,2,0,2, 0,0,1,2,2,1,3,1},
  {2,0,1,2,2,3,3,1, 1,1,0,3,3,0,2,0, 1,3,0,1,3,0,2,2, 2,0,1,2,0,3,3,1},
  {3,1,2,3,0,2,1,2, 1,2,0,1,3,0,0,3, 1,0,3,1,2,3,0,3, 0,3,2,0,1,2,2,1},
  {2,0,0,1,3,2,3,2, 0,1,3,3,1,0,2,1, 2,3,2,0,0,3,1,1, 1,0,3,2,3,1,0,2},
  {0,1,2,3,1,2,2,0, 0,1,3,0,2,3,1,3, 2,3,0,2,3,0,1,1, 2,1,1,2,0,3,3,0},
  {0,3,2,2,3,0,0,1, 3,0,1,3,1,2,2,1, 1,0,3,3,0,1,1,2, 2,3,1,0,2,3,0,2},
};

void ref_set(ref_key *k, const uint8_t cw[8])
{
  uint8_t kb[7][8];
  if (!perm_ready) perm_init();
  memcpy(k->cw, cw, 8);
  memcpy(kb[6], cw, 8);
  for (int i = 5; i >= 0; i--) {
    memset(kb[i], 0, 8);
    for (int b = 0; b < 64; b++)
      if (kb[i + 1][b >> 3] >> (7 - (b & 7)) & 1) {
        int t = key_perm[b] - 1;
        kb[i][t >> 3] |= 0x80 >> (t & 7);
      }
#ifdef REF_COV
    for (int j = 0; j < 8; j++) COV(kbyte[i][j][kb[i + 1][j]]);
#endif
  }
  for (int i = 0; i < 7; i++)
    for (int j = 0; j < 8; j++)
      k->kk[i * 8 + j] = kb[i][j] ^ i;
}

/* block cipher: registers R[1..8] of the description are r[0..7] */
static void block_decipher(const uint8_t *kk, const uint8_t *in, uint8_t *out)
{
  uint8_t r[8];
  memcpy(r, in, 8);
  for (int i = 55; i >= 0; i--) {
    uint8_t s, p, n;
    COV(block_dec[i][kk[i] ^ r[6]]);
    s = block_sbox[kk[i] ^ r[6]];
    p = perm_tab[s];
    n = r[7] ^ s;
    r[7] = r[6];
    r[6] = r[5] ^ p;
    r[5] = r[4];
    r[4] = r[3] ^ n;
    r[3] = r[2] ^ n;
    r[2] = r[1] ^ n;
    r[1] = r[0];
    r[0] = n;
  }
  memcpy(out, r, 8);
}

static void block_encipher(const uint8_t *kk, const uint8_t *in, uint8_t *out)
{
  uint8_t r[8];
  memcpy(r, in, 8);
  for (int i = 0; i < 56; i++) {
    uint8_t s, p, f;
    COV(block_enc[i][kk[i] ^ r[7]]);
    s = block_sbox[kk[i] ^ r[7]];
    p = perm_tab[s];
    f = r[0];
    r[0] = r[1];
    r[1] = r[2] ^ f;
    r[2] = r[3] ^ f;
    r[3] = r[4] ^ f;
    r[4] = r[5];
    r[5] = r[6] ^ p;
    r[6] = r[7];
    r[7] = f ^ s;
  }
  memcpy(out, r, 8);
}

/* Stream cipher.  A and B are ten 4-bit cells A[1]..A[10] each; the array is
 * walked backwards so that shifting is moving the base by one cell. */
typedef ref_stream sreg;

#define BIT(v,n) (((v) >> (n)) & 1)

/* one clock; ina/inb are the nibbles mixed in during initialisation */
static inline void stream_clock(sreg *s, int init, unsigned ina, unsigned inb)
{
  const uint8_t *A = s->a + s->ia, *B = s->b + s->ia;
  unsigned i1, i2, i3, i4, i5, i6, i7, s1, s2, s3, s4, s5, s6, s7, xb, na, nb, ne;

  i1 = BIT(A[4],0)<<4 | BIT(A[1],2)<<3 | BIT(A[6],1)<<2 | BIT(A[7],3)<<1 | BIT(A[9],0);
  i2 = BIT(A[2],1)<<4 | BIT(A[3],2)<<3 | BIT(A[6],3)<<2 | BIT(A[7],0)<<1 | BIT(A[9],1);
  i3 = BIT(A[1],3)<<4 | BIT(A[2],0)<<3 | BIT(A[5],1)<<2 | BIT(A[5],3)<<1 | BIT(A[6],2);
  i4 = BIT(A[3],3)<<4 | BIT(A[1],1)<<3 | BIT(A[2],3)<<2 | BIT(A[4],2)<<1 | BIT(A[8],0);
  i5 = BIT(A[5],2)<<4 | BIT(A[4],3)<<3 | BIT(A[6],0)<<2 | BIT(A[8],1)<<1 | BIT(A[9],2);
  i6 = BIT(A[3],1)<<4 | BIT(A[4],1)<<3 | BIT(A[5],0)<<2 | BIT(A[7],2)<<1 | BIT(A[9],3);
  i7 = BIT(A[2],2)<<4 | BIT(A[3],0)<<3 | BIT(A[7],1)<<2 | BIT(A[8],2)<<1 | BIT(A[8],3);
  COV(sbox[0][i1]); COV(sbox[1][i2]); COV(sbox[2][i3]); COV(sbox[3][i4]);
  COV(sbox[4][i5]); COV(sbox[5][i6]); COV(sbox[6][i7]);
  s1 = stream_sbox[0][i1]; s2 = stream_sbox[1][i2]; s3 = stream_sbox[2][i3];
  s4 = stream_sbox[3][i4]; s5 = stream_sbox[4][i5]; s6 = stream_sbox[5][i6];
  s7 = stream_sbox[6][i7];

  xb = (BIT(B[3],0) ^ BIT(B[6],1) ^ BIT(B[7],2) ^ BIT(B[9],3)) << 3
     | (BIT(B[6],0) ^ BIT(B[8],1) ^ BIT(B[3],3) ^ BIT(B[4],2)) << 2
     | (BIT(B[5],3) ^ BIT(B[8],2) ^ BIT(B[4],0) ^ BIT(B[5],1)) << 1
     | (BIT(B[9],2) ^ BIT(B[6],3) ^ BIT(B[3],1) ^ BIT(B[8],0));

  na = A[10] ^ s->X;
  nb = B[7] ^ B[10] ^ s->Y;
  if (init) { na ^= s->D ^ ina; nb ^= inb; }
  COV(rot[s->p][nb]);
  if (s->p) nb = ((nb << 1) | (nb >> 3)) & 15;

  COV(adder[s->q][s->r][s->Z][s->E]);
  s->D = s->E ^ s->Z ^ xb;
  ne = s->F;
  if (s->q) {
    s->F = s->Z + s->E + s->r;
    s->r = s->F >> 4 & 1;
    s->F &= 15;
  } else
    s->F = s->E;
  s->E = ne;

  s->a[s->ia] = na;             /* becomes cell 1 */
  s->b[s->ia] = nb;
  s->ia--;

  s->X = BIT(s4,0)<<3 | BIT(s3,0)<<2 | BIT(s2,1)<<1 | BIT(s1,1);
  s->Y = BIT(s6,0)<<3 | BIT(s5,0)<<2 | BIT(s4,1)<<1 | BIT(s3,1);
  s->Z = BIT(s2,0)<<3 | BIT(s1,0)<<2 | BIT(s6,1)<<1 | BIT(s5,1);
  s->p = BIT(s7,1);
  s->q = BIT(s7,0);
  COV(out[s->D]);
}

#define TOP (63 - 10)
static inline void rewind_cells(sreg *s)
{
  if (s->ia >= 4) return;
  memmove(s->a + TOP + 1, s->a + s->ia + 1, 10);
  memmove(s->b + TOP + 1, s->b + s->ia + 1, 10);
  s->ia = TOP;
}

void ref_stream_init(ref_stream *s, const ref_key *k, const uint8_t iv[8])
{
  const uint8_t *ck = k->cw;
  memset(s, 0, sizeof *s);
  s->ia = TOP;
  for (int i = 0; i < 4; i++) {
    s->a[TOP + 1 + 2 * i] = ck[i] >> 4;     s->a[TOP + 2 + 2 * i] = ck[i] & 15;
    s->b[TOP + 1 + 2 * i] = ck[4 + i] >> 4; s->b[TOP + 2 + 2 * i] = ck[4 + i] & 15;
  }
  for (int i = 0; i < 8; i++) {
    unsigned in1 = iv[i] >> 4, in2 = iv[i] & 15;
    rewind_cells(s);
    for (int j = 0; j < 4; j++)
      stream_clock(s, 1, j & 1 ? in2 : in1, j & 1 ? in1 : in2);
  }
}

void ref_stream_xor(ref_stream *s, uint8_t *data, size_t len)
{
  for (size_t i = 0; i < len; i++) {
    unsigned op = 0;
    rewind_cells(s);
    for (int j = 0; j < 4; j++) {
      stream_clock(s, 0, 0, 0);
      op = op << 2 | (BIT(s->D,3) ^ BIT(s->D,2)) << 1 | (BIT(s->D,1) ^ BIT(s->D,0));
    }
    data[i] ^= op;
  }
}

/* The same, many times faster, for payloads of gigabytes: the registers are
 * packed, and everything a clock reads of them is looked up in tables made
 * from the definitions above.  ref_selftest compares the two. */
static uint64_t f_sel[4][512];          /* nine bits of A: the inputs they are of the seven S-boxes */
static uint16_t f_box[3][1024], f_box7[32];      /* what pairs of S-boxes give X, Y, Z, p, q */
static uint8_t f_xb[4][512];
static void fast_tables(void)
{
  for (int c = 0; c < 4; c++)
    for (unsigned v = 0; v < 512; v++) {
      uint8_t A[11] = {0};
      const uint8_t *Bc = A;
      for (int b = 0; b < 9; b++) if (BIT(v, b)) A[1 + (9 * c + b) / 4] |= 1 << ((9 * c + b) & 3);
      uint64_t i1 = BIT(A[4],0)<<4 | BIT(A[1],2)<<3 | BIT(A[6],1)<<2 | BIT(A[7],3)<<1 | BIT(A[9],0);
      uint64_t i2 = BIT(A[2],1)<<4 | BIT(A[3],2)<<3 | BIT(A[6],3)<<2 | BIT(A[7],0)<<1 | BIT(A[9],1);
      uint64_t i3 = BIT(A[1],3)<<4 | BIT(A[2],0)<<3 | BIT(A[5],1)<<2 | BIT(A[5],3)<<1 | BIT(A[6],2);
      uint64_t i4 = BIT(A[3],3)<<4 | BIT(A[1],1)<<3 | BIT(A[2],3)<<2 | BIT(A[4],2)<<1 | BIT(A[8],0);
      uint64_t i5 = BIT(A[5],2)<<4 | BIT(A[4],3)<<3 | BIT(A[6],0)<<2 | BIT(A[8],1)<<1 | BIT(A[9],2);
      uint64_t i6 = BIT(A[3],1)<<4 | BIT(A[4],1)<<3 | BIT(A[5],0)<<2 | BIT(A[7],2)<<1 | BIT(A[9],3);
      uint64_t i7 = BIT(A[2],2)<<4 | BIT(A[3],0)<<3 | BIT(A[7],1)<<2 | BIT(A[8],2)<<1 | BIT(A[8],3);
      f_sel[c][v] = i1 | i2 << 5 | i3 << 10 | i4 << 15 | i5 << 20 | i6 << 25 | i7 << 30;
      f_xb[c][v] = (BIT(Bc[3],0) ^ BIT(Bc[6],1) ^ BIT(Bc[7],2) ^ BIT(Bc[9],3)) << 3
                 | (BIT(Bc[6],0) ^ BIT(Bc[8],1) ^ BIT(Bc[3],3) ^ BIT(Bc[4],2)) << 2
                 | (BIT(Bc[5],3) ^ BIT(Bc[8],2) ^ BIT(Bc[4],0) ^ BIT(Bc[5],1)) << 1
                 | (BIT(Bc[9],2) ^ BIT(Bc[6],3) ^ BIT(Bc[3],1) ^ BIT(Bc[8],0));
    }
  for (int c = 0; c < 3; c++)
    for (unsigned v = 0; v < 1024; v++) {
      unsigned s[8] = {0};
      s[2 * c + 1] = stream_sbox[2 * c][v & 31]; s[2 * c + 2] = stream_sbox[2 * c + 1][v >> 5];
      unsigned X = BIT(s[4],0)<<3 | BIT(s[3],0)<<2 | BIT(s[2],1)<<1 | BIT(s[1],1);
      unsigned Y = BIT(s[6],0)<<3 | BIT(s[5],0)<<2 | BIT(s[4],1)<<1 | BIT(s[3],1);
      unsigned Z = BIT(s[2],0)<<3 | BIT(s[1],0)<<2 | BIT(s[6],1)<<1 | BIT(s[5],1);
      f_box[c][v] = X | Y << 4 | Z << 8;
    }
  for (unsigned v = 0; v < 32; v++) f_box7[v] = BIT(stream_sbox[6][v],1) << 12 | BIT(stream_sbox[6][v],0) << 13;
}
void ref_stream_xor_fast(ref_stream *s, uint8_t *data, size_t len)
{
  static int have;
  uint64_t A = 0, Bb = 0;
  unsigned x = s->X | s->Y << 4 | s->Z << 8 | s->p << 12 | s->q << 13, E = s->E, F = s->F, r = s->r, D = s->D;
  if (!have) { fast_tables(); have = 1; }
  for (int n = 1; n <= 10; n++) { A |= (uint64_t)s->a[s->ia + n] << 4 * (n - 1); Bb |= (uint64_t)s->b[s->ia + n] << 4 * (n - 1); }
  for (size_t i = 0; i < len; i++) {
    unsigned op = 0;
    for (int j = 0; j < 4; j++) {
      uint64_t sel = f_sel[0][A & 511] | f_sel[1][A >> 9 & 511] | f_sel[2][A >> 18 & 511] | f_sel[3][A >> 27 & 511];
      unsigned xb = f_xb[0][Bb & 511] ^ f_xb[1][Bb >> 9 & 511] ^ f_xb[2][Bb >> 18 & 511] ^ f_xb[3][Bb >> 27 & 511];
      unsigned na = (A >> 36 & 15) ^ (x & 15), nb = (Bb >> 24 & 15) ^ (Bb >> 36 & 15) ^ (x >> 4 & 15), Z = x >> 8 & 15, ne = F;
      nb = x & 1 << 12 ? (nb << 1 | nb >> 3) & 15 : nb;
      D = E ^ Z ^ xb;
      if (x & 1 << 13) { F = Z + E + r; r = F >> 4; F &= 15; } else F = E;
      E = ne;
      A = A << 4 | na; Bb = Bb << 4 | nb;
      x = f_box[0][sel & 1023] | f_box[1][sel >> 10 & 1023] | f_box[2][sel >> 20 & 1023] | f_box7[sel >> 30 & 31];
      op = op << 2 | (BIT(D,3) ^ BIT(D,2)) << 1 | (BIT(D,1) ^ BIT(D,0));
    }
    data[i] ^= op;
  }
  s->ia = TOP;
  for (int n = 1; n <= 10; n++) { s->a[s->ia + n] = A >> 4 * (n - 1) & 15; s->b[s->ia + n] = Bb >> 4 * (n - 1) & 15; }
  s->X = x & 15; s->Y = x >> 4 & 15; s->Z = x >> 8 & 15; s->p = x >> 12 & 1; s->q = x >> 13 & 1;
  s->D = D; s->E = E; s->F = F; s->r = r;
}

static void stream_xor(const ref_key *k, uint8_t *data, size_t len)
{
  ref_stream s;
  ref_stream_init(&s, k, data);
  ref_stream_xor(&s, data + 8, len);
}

void ref_block_decrypt(const ref_key *k, const uint8_t in[8], uint8_t out[8]) { block_decipher(k->kk, in, out); }
void ref_block_encrypt(const ref_key *k, const uint8_t in[8], uint8_t out[8]) { block_encipher(k->kk, in, out); }

void ref_encrypt(const ref_key *k, uint8_t *data, size_t len)
{
  size_t n = len / 8, i;
  if (n == 0) return;
  /* block stage: last block first, each block xored with the following result */
  for (i = n; i-- > 0; ) {
    if (i + 1 < n)
      for (int j = 0; j < 8; j++) data[8 * i + j] ^= data[8 * i + 8 + j];
    block_encipher(k->kk, data + 8 * i, data + 8 * i);
  }
  stream_xor(k, data, len - 8);
}

void ref_decrypt(const ref_key *k, uint8_t *data, size_t len)
{
  size_t n = len / 8, i;
  if (n == 0) return;
  stream_xor(k, data, len - 8);
  for (i = 0; i < n; i++) {
    block_decipher(k->kk, data + 8 * i, data + 8 * i);
    if (i + 1 < n)
      for (int j = 0; j < 8; j++) data[8 * i + j] ^= data[8 * i + 8 + j];
  }
}

void ref_cov_count(unsigned long *hit, unsigned long *total)
{
  const uint32_t *p = (const uint32_t *)&ref_cov;
  *hit = 0; *total = sizeof ref_cov / 4;
  for (size_t i = 0; i < *total; i++) *hit += p[i] != 0;
}

/* one published TS packet (the vector everybody uses: libdvbcsa, VLC, FFdecsa) */
static const uint8_t v_cw[8] = {0x07,0xe0,0x1b,0x02,0xc9,0xe0,0x45,0xee};
static const uint8_t v_in[184] = {
  0xde,0xcf,0x0a,0x0d,0xb2,0xd7,0xc4,0x40,0xde,0x5d,0x63,0x18,0x5a,0x98,0x17,0xaa,
  0xc9,0xbc,0x27,0xc6,0xcb,0x49,0x40,0x48,0xfd,0x20,0xb7,0x05,0x5b,0x27,0xcb,0xeb,
  0x9a,0xf0,0xac,0x45,0x6d,0x56,0xf4,0x7b,0x6f,0xa0,0x57,0xf3,0x9b,0xf7,0xa2,0xc7,
  0xd4,0x68,0x24,0x00,0x2f,0x28,0x13,0x96,0x94,0xa8,0x7c,0xf4,0x6f,0x07,0x2a,0x0e,
  0xe8,0xa1,0xeb,0xc7,0x80,0xac,0x1f,0x79,0xbf,0x5d,0xb6,0x10,0x7c,0x2e,0x52,0xe9,
  0x34,0x2c,0xa8,0x39,0x01,0x73,0x04,0x24,0xa8,0x1e,0xdb,0x5b,0xcb,0x24,0xf6,0x31,
  0xab,0x02,0x6b,0xf9,0xf6,0xf7,0xe9,0x52,0xad,0xcf,0x62,0x0f,0x42,0xf6,0x66,0x5d,
  0xc0,0x86,0xf2,0x7b,0x40,0x20,0xa9,0xbd,0x1f,0xfd,0x16,0xad,0x2e,0x75,0xa6,0xa0,
  0x85,0xf3,0x9c,0x31,0x20,0x4e,0xfb,0x95,0x61,0x78,0xce,0x10,0xc1,0x48,0x5f,0xd3,
  0x61,0x05,0x12,0xf4,0xe2,0x04,0xae,0xe0,0x86,0x01,0x56,0x55,0xb1,0x0f,0xa6,0x33,
  0x95,0x20,0x92,0xf0,0xbe,0x39,0x31,0xe1,0x2a,0xf7,0x93,0xb4,0xf7,0xe4,0xf1,0x85,
  0xae,0x50,0xf1,0x63,0xd4,0x5d,0x9c,0x6c };
static const uint8_t v_out[184] = {
  0xaf,0xbe,0xfb,0xef,0xbe,0xfb,0xef,0xbe,0xfb,0xef,0xbe,0xfb,0xe6,0xb5,0xad,0x7c,
  0xf9,0xf3,0xe5,0xb1,0x6c,0x7c,0xf9,0xf3,0xe6,0xb5,0xad,0x6b,0x5f,0x3e,0x7c,0xf9,
  0x6c,0x5b,0x1f,0x3e,0x7c,0xf9,0xad,0x6b,0x5a,0xd7,0xcf,0x9f,0x3e,0x5b,0x16,0xc7,
  0xcf,0x9f,0x3e,0x6b,0x5a,0xd6,0xb5,0xf3,0xe7,0xcf,0x96,0xc5,0xb1,0xf3,0xe7,0xcf,
  0x9a,0xd6,0xb5,0xad,0x7c,0xf9,0xf3,0xe5,0xb1,0x6c,0x7c,0xf9,0xf3,0xe6,0xb5,0xad,
  0x6b,0x5f,0x3e,0x7c,0xf9,0x6c,0x5b,0x1f,0x3e,0x7c,0xf9,0xad,0x6b,0x5a,0xd7,0xcf,
  0x9f,0x3e,0x5b,0x16,0xc7,0xcf,0x9f,0x3e,0x6b,0x5a,0xd6,0xb5,0xf3,0xe7,0xcf,0x96,
  0xc5,0xb1,0xf3,0xe7,0xcf,0x9a,0xd6,0xb5,0xad,0x7c,0xf9,0xf3,0xe5,0xb1,0x6c,0x7c,
  0xf9,0xf3,0xe6,0xb5,0xad,0x6b,0x5f,0x3e,0x7c,0xf9,0x6c,0x5b,0x1f,0x3e,0x7c,0xf9,
  0xad,0x6b,0x5a,0xd7,0xcf,0x9f,0x3e,0x5b,0x16,0xc7,0xcf,0x9f,0x3e,0x6b,0x5a,0xd6,
  0xb5,0xf3,0xe7,0xcf,0x96,0xc5,0xb1,0xf3,0xe7,0xcf,0x9a,0xd0,0x00,0x00,0x00,0x00,
  0xff,0xfc,0x44,0x00,0x66,0xb1,0x11,0x11 };

int ref_selftest(void)
{
  uint8_t seen[256], d[184];
  ref_key k;

  memset(seen, 0, sizeof seen);
  for (int i = 0; i < 64; i++) {
    if (key_perm[i] < 1 || key_perm[i] > 64 || seen[key_perm[i]]++) return 1;
  }
  memset(seen, 0, sizeof seen);
  for (int i = 0; i < 256; i++)
    if (seen[block_sbox[i]]++) return 2;
  for (int s = 0; s < 7; s++) {         /* every S-box is balanced */
    int n[4] = {0,0,0,0};
    for (int i = 0; i < 32; i++) n[stream_sbox[s][i]]++;
    for (int i = 0; i < 4; i++) if (n[i] != 8) return 3;
  }
  ref_set(&k, v_cw);
  memcpy(d, v_in, 184);
  ref_decrypt(&k, d, 184);
  if (memcmp(d, v_out, 184)) return 4;
  ref_encrypt(&k, d, 184);
  if (memcmp(d, v_in, 184)) return 5;
  {
    ref_stream f, g;
    uint8_t x[600] = {0}, y[600] = {0};
    ref_stream_init(&f, &k, v_in); g = f;
    ref_stream_xor(&f, x, 600);
    ref_stream_xor_fast(&g, y, 300); ref_stream_xor_fast(&g, y + 300, 100); ref_stream_xor(&g, y + 400, 200);
    if (memcmp(x, y, 600)) return 6;
  }
  return 0;
}
