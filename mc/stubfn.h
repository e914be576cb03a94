#ifndef STUBFN_H
#define STUBFN_H
#include <stdint.h>
#include <string.h>
static inline uint64_t stub_enc(uint64_t x) { x ^= 0x5bd1e9955bd1e995ull; x *= 0x9e3779b97f4a7c15ull; return x ^ x >> 29; }
static inline uint64_t stub_dec(uint64_t x) { x += 0x123456789abcdef1ull; x *= 0xd6e8feb86659fd93ull; return x ^ x >> 31; }
/* keystream word at stream offset 8 * i */
static inline uint64_t stub_ks(uint64_t iv, uint64_t i) { return (iv + i * 0xbf58476d1ce4e5b9ull) ^ i >> 7; }
static inline void stub_xor(uint64_t iv, uint8_t *d, uint64_t from, uint64_t n)
{
  uint64_t i = from, w, k;
  for (; n >= 8; n -= 8, d += 8, i++) { memcpy(&w, d, 8); w ^= stub_ks(iv, i); memcpy(d, &w, 8); }
  k = stub_ks(iv, i);
  for (unsigned j = 0; j < n; j++) d[j] ^= ((const uint8_t *)&k)[j];
}
#endif
