From fb24eac06f5c0c30cb520c984630fd401f8e18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 1/5] fix: chain all blocks when encrypting payloads of 2^31
 bytes and more

The loop counter was a signed int: from 2^31+16 bytes on it started out
negative and only the last block was block-encrypted.
---
 src/dvbcsa_algo.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dvbcsa_algo.c b/src/dvbcsa_algo.c
index 268f03c..c36739b 100644
--- a/src/dvbcsa_algo.c
+++ b/src/dvbcsa_algo.c
@@ -50,7 +50,7 @@ void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
 {
   unsigned int  alen = len & (unsigned)~0x7;
-  int       i;
+  unsigned int  i;
 
   if (len < 8)
     return;
@@ -58,10 +58,10 @@ void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 #ifndef DVBCSA_DISABLE_BLOCK
   dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);
 
-  for (i = alen - 16; i >= 0; i -= 8)
+  for (i = alen - 8; i > 0; i -= 8)
     {
-      dvbcsa_xor_64(data + i, data + i + 8);
-      dvbcsa_block_encrypt(key->sch, data + i, data + i);
+      dvbcsa_xor_64(data + i - 8, data + i);
+      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);
     }
 #endif
 
-- 
2.43.0


From eaae678717de7079b0881a7956433cf278afc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 2/5] fix: process only the first maxlen bytes of longer
 packets in a batch

Packets longer than 184 bytes were copied in full into the 184 byte slots
of the packet buffer, overwriting the next packets and the stack.
---
 src/dvbcsa_bs_algo.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..137b678 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -47,8 +47,11 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      /* packets longer than maxlen are only partially processed */
+      unsigned int len = pcks[i].len < maxlen ? pcks[i].len : maxlen;
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +65,8 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    memcpy(pcks[i].data, block,
+           pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen);
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0


From 2d522132d549e3003c0e140114f8f6341cf911f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 3/5] fix: avoid signed overflow in the 32 bits bitslice key
 setup

kk[i] is promoted to int, and kk[i] * 0x01010101 overflows it from 0x80 on.
---
 src/dvbcsa_bs_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index e2fcf55..77d871e 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -46,7 +46,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
   for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
     {
 #if BS_BATCH_SIZE == 32
-      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101;
+      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101U;
 
 #elif BS_BATCH_SIZE == 64
       *(dvbcsa_u64_aliasing_t *)(key->block + i) = kk[i] * 0x0101010101010101ULL;
-- 
2.43.0


From 3e1eb032d0eafb38bd317de94876c2e5135a5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 4/5] fix: keep the AVX2 gather inside the sbox table

Looking up entry 255 loaded the two bytes behind the table.
---
 src/dvbcsa_bs_avx2.h  | 2 +-
 src/dvbcsa_bs_block.c | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 8398943..5117288 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -58,7 +58,7 @@ typedef __m256i dvbcsa_bs_word_t;
       var_hi = _mm256_load_si256((ptr) + 1); \
       }
 
-static const uint16_t dvbcsa_block_sbox_perm[256];
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1];
 
 static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
                                            dvbcsa_bs_word_t *dst)
diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..2aab638 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -52,8 +52,11 @@
 
   LSB: sbox output
   MSB: permuted sbox output
+
+  The extra element keeps the AVX2 gather, which loads 32 bits for each 16 bit
+  entry, inside the table.
 */
-static const uint16_t dvbcsa_block_sbox_perm[256] =
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1] =
   {
     0xd43a, 0xd9ea, 0x5168, 0xfdfe, 0xc633, 0x5be9, 0x1888, 0x941a,
     0x8a83, 0xbbcf, 0x4be1, 0xf77f, 0xdcba, 0xc9e2, 0x5438, 0x8412,
-- 
2.43.0


From 34c84d6441220d9f6914ca004d8257a21d248cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 5/5] fix: make the alternative sbox work with AVX2

The alternative BLOCK_SBOX_PERMUTE leaves both output bytes interleaved in
packet order, while BS_LOAD_DEINTERLEAVE_8 was a stub expecting them to be
separated by the gather variant: the block cipher output was wrong.
---
 src/dvbcsa_bs_avx2.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 5117288..bc1d86f 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -51,6 +51,24 @@ typedef __m256i dvbcsa_bs_word_t;
 
 #define BS_EMPTY()
 
+#ifdef DVBCSA_USE_ALT_SBOX
+
+/* block cipher 2-word load with byte-deinterleaving */
+#define BS_LOAD_DEINTERLEAVE_8(ptr, var_lo, var_hi) \
+      {\
+      dvbcsa_bs_word_t a, b; \
+      dvbcsa_bs_word_t m = _mm256_set_epi8(15,13,11,9,7,5,3,1,14,12,10,8,6,4,2,0, \
+                                           15,13,11,9,7,5,3,1,14,12,10,8,6,4,2,0); \
+      a = _mm256_load_si256((ptr)); \
+      b = _mm256_load_si256((ptr) + 1); \
+      a = _mm256_shuffle_epi8(a, m); \
+      b = _mm256_shuffle_epi8(b, m); \
+      var_lo = _mm256_permute4x64_epi64(_mm256_unpacklo_epi64(a, b), 0xd8); \
+      var_hi = _mm256_permute4x64_epi64(_mm256_unpackhi_epi64(a, b), 0xd8); \
+      }
+
+#else
+
 /* BS_LOAD_DEINTERLEAVE_8 stub: deinterleaving is done by BLOCK_SBOX_PERMUTE */
 #define BS_LOAD_DEINTERLEAVE_8(ptr, var_lo, var_hi) \
       {\
@@ -113,5 +131,7 @@ static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) avx2_block_sbox_permute(in_buf, out_buf);
 
+#endif /* DVBCSA_USE_ALT_SBOX */
+
 #endif
 
-- 
2.43.0

