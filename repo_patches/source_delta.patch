From 40dd7754fbcaa62fab7aacf222942bcf6060a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 1/4] fix: decrypt rejects ciphertexts shorter than the tag

clen - ISAP_TAG_SZ wrapped around for clen < 16, so decrypt read far
beyond the ciphertext buffer.
---
 crypto_aead/isapa128av20/avx_512/crypto_aead.c          | 6 ++++++
 crypto_aead/isapa128av20/bi_32/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c | 6 ++++++
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c        | 6 ++++++
 crypto_aead/isapa128av20/bi_8/crypto_aead.c             | 6 ++++++
 crypto_aead/isapa128av20/opt_32/crypto_aead.c           | 6 ++++++
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c       | 6 ++++++
 crypto_aead/isapa128av20/opt_64/crypto_aead.c           | 6 ++++++
 crypto_aead/isapa128av20/opt_8/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128av20/ref/crypto_aead.c              | 6 ++++++
 crypto_aead/isapa128v20/opt_32/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapa128v20/opt_64/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128v20/ref/crypto_aead.c               | 6 ++++++
 crypto_aead/isapk128av20/avx512/crypto_aead.c           | 6 ++++++
 crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapk128av20/opt_64/crypto_aead.c           | 6 ++++++
 crypto_aead/isapk128av20/ref/crypto_aead.c              | 6 ++++++
 crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c     | 6 ++++++
 crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c     | 6 ++++++
 crypto_aead/isapk128v20/opt_64/crypto_aead.c            | 6 ++++++
 crypto_aead/isapk128v20/ref/crypto_aead.c               | 6 ++++++
 crypto_aead/isapxv20/ref/crypto_aead.c                  | 6 ++++++
 24 files changed, 144 insertions(+)

diff --git a/crypto_aead/isapa128av20/avx_512/crypto_aead.c b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
index 58f7641..631b6b6 100644
--- a/crypto_aead/isapa128av20/avx_512/crypto_aead.c
+++ b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
@@ -31,6 +31,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32/crypto_aead.c b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
index 4a9bd29..4bfa710 100644
--- a/crypto_aead/isapa128av20/bi_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e0d533c..edb2e88 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -37,6 +37,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e0d533c..edb2e88 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -37,6 +37,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_8/crypto_aead.c b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
index 4a9bd29..4bfa710 100644
--- a/crypto_aead/isapa128av20/bi_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32/crypto_aead.c b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128av20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e0d533c..edb2e88 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -37,6 +37,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_64/crypto_aead.c b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_8/crypto_aead.c b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
index 4a9bd29..4bfa710 100644
--- a/crypto_aead/isapa128av20/opt_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/ref/crypto_aead.c b/crypto_aead/isapa128av20/ref/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128av20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32/crypto_aead.c b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128v20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_64/crypto_aead.c b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/ref/crypto_aead.c b/crypto_aead/isapa128v20/ref/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapa128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128v20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/avx512/crypto_aead.c b/crypto_aead/isapk128av20/avx512/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128av20/avx512/crypto_aead.c
+++ b/crypto_aead/isapk128av20/avx512/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_64/crypto_aead.c b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/ref/crypto_aead.c b/crypto_aead/isapk128av20/ref/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128av20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_64/crypto_aead.c b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/ref/crypto_aead.c b/crypto_aead/isapk128v20/ref/crypto_aead.c
index 2287e4d..1ea8508 100644
--- a/crypto_aead/isapk128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128v20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapxv20/ref/crypto_aead.c b/crypto_aead/isapxv20/ref/crypto_aead.c
index 100427c..46416a9 100644
--- a/crypto_aead/isapxv20/ref/crypto_aead.c
+++ b/crypto_aead/isapxv20/ref/crypto_aead.c
@@ -35,6 +35,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject ciphertexts that cannot hold a tag
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
-- 
2.43.0


From e5d4b48b25ce927bed0283a7249c4769d8d3e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 2/4] fix: isapk opt_64 ABSORB_MAC reads two bytes for the
 16-bit lane

The 64-bit load read six bytes past the last full block of ad and c.
---
 crypto_aead/isapk128av20/opt_64/isap.c | 4 ++--
 crypto_aead/isapk128v20/opt_64/isap.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 8011b82..792def3 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index 60ad9c2..cb9decc 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
-- 
2.43.0


From a4cca5f887b7814aed3da870315f81370f273851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 3/4] fix: bi_32_armv7m leaves the Ascon lanes rotated after
 every round

The inline assembly ends with the new lanes in the registers of x2, x3,
x4, x0 and x1; without moving them back encrypt, decrypt and hash
computed something other than ISAP and Ascon-Hash.
---
 crypto_aead/isapa128av20/bi_32_armv7m/asconp.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
index 87ab8e8..4642374 100644
--- a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
@@ -159,6 +159,15 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [tmp1] "=r"(tmp1), [tmp2] "=r"(tmp2)
         : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
         :);
+
+    // The round leaves the new lanes x0..x4 in x2, x3, x4, x0, x1
+    lane_t t0 = s->l[0];
+    lane_t t1 = s->l[1];
+    s->l[0] = s->l[2];
+    s->l[1] = s->l[3];
+    s->l[2] = s->l[4];
+    s->l[3] = t0;
+    s->l[4] = t1;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From e7c2c7e714dcf1c4bcbc2de516b4bc34798cb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:36 +0000
Subject: [PATCH 4/4] fix: stp variants keep the tag-comparison state per call

The state that pvp() compares under lived in two globals, so a concurrent
call between isap_mac and pvp could change which tags are accepted.
---
 .../bi_32_armv6m_stp/crypto_aead.c            |  8 ++++---
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 21 +++++++++----------
 .../isapa128av20/bi_32_armv6m_stp/isap.h      |  6 ++++--
 .../isapa128av20/bi_32_stp/crypto_aead.c      |  8 ++++---
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 21 +++++++++----------
 crypto_aead/isapa128av20/bi_32_stp/isap.h     |  6 ++++--
 .../isapa128av20/opt_32_stp/crypto_aead.c     |  8 ++++---
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 21 +++++++++----------
 crypto_aead/isapa128av20/opt_32_stp/isap.h    |  6 ++++--
 9 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index edb2e88..b61ea54 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, s01);
 	return 0;
 }
 
@@ -48,7 +49,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, s01);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -56,7 +58,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s01);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 2fa2aed..218ba15 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    s01[0] = s->x[0];
+    s01[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
index ae37dcd..d5efcb9 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *s01);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *s01);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index edb2e88..b61ea54 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, s01);
 	return 0;
 }
 
@@ -48,7 +49,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, s01);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -56,7 +58,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s01);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 2fa2aed..218ba15 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    s01[0] = s->x[0];
+    s01[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.h b/crypto_aead/isapa128av20/bi_32_stp/isap.h
index ae37dcd..d5efcb9 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *s01);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *s01);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index edb2e88..b61ea54 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, s01);
 	return 0;
 }
 
@@ -48,7 +49,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, s01);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -56,7 +58,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s01);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 2fa2aed..218ba15 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    s01[0] = s->x[0];
+    s01[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.h b/crypto_aead/isapa128av20/opt_32_stp/isap.h
index 55464cb..9438af7 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *s01);
 
 int pvp(
 	const uint8_t *T,
-	const uint8_t *T_star);
+	const uint8_t *T_star,
+	const uint64_t *s01);
 
 void isap_enc(
 	const uint8_t *k,
-- 
2.43.0

