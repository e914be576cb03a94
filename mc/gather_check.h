/* Replaces the AVX2 gather by scalar loads, which the sanitizers can see. */
#include <immintrin.h>
#include <string.h>
static inline __m256i mc_gather32(const int *base, __m256i idx, int scale)
{
  int i[8], r[8];
  memcpy(i, &idx, 32);
  for (int k = 0; k < 8; k++) memcpy(&r[k], (const char *)base + (long)i[k] * scale, 4);
  __m256i o;
  memcpy(&o, r, 32);
  return o;
}
#undef _mm256_i32gather_epi32
#define _mm256_i32gather_epi32(b, i, s) mc_gather32((const int *)(b), (i), (s))
