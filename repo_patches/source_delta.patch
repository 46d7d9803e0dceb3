From 7ec9bcf021c3c567cab857b1504ab3050ef60388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 1/4] fix: crypto_sign_open rejected signatures publishing
 exactly MAX_PUBLISHED_SEEDS seeds

The worst case number of seeds is attained by honest challenges (e.g. 92 seeds
for category 1 balanced), and such signatures were refused by an off-by-one.
---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..2483191 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -72,7 +72,7 @@ int crypto_sign_open(unsigned char *m,
 {
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..4a4d110 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -73,7 +73,7 @@ int crypto_sign_open(unsigned char *m,
 {
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From 7a34e7df60b2eb40a9a3857c048ab44bd9009ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 2/4] fix: crypto_sign_open read outside the signed message on
 malformed input

A message shorter than a signature made the message length wrap around, and a
wrong announced seed count made verification read past the end of the buffer
(its verdict then depended on unrelated memory). Reject both.
---
 Optimized_Implementation/common/lib/LESS.c |  9 +++++++--
 Optimized_Implementation/common/lib/sign.c | 15 ++++++++++++++-
 Reference_Implementation/lib/LESS.c        |  9 +++++++--
 Reference_Implementation/lib/sign.c        | 15 ++++++++++++++-
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..7482118 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -225,8 +225,13 @@ int LESS_verify(const pubkey_t *const PK,
     }
 
     unsigned char seed_tree[NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES] = {0};
-    rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
-                             (unsigned char *) &sig->seed_storage, sig->tree_salt);
+    const uint32_t num_seeds_used =
+            rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
+                                     (unsigned char *) &sig->seed_storage, sig->tree_salt);
+    /* the announced number of seeds must be the one the challenge requires */
+    if (sig->seed_storage[num_seeds_used*SEED_LENGTH_BYTES] != num_seeds_used) {
+        return 0;
+    }
 
     unsigned char *ephem_monomial_seeds = seed_tree +
                                           SEED_LENGTH_BYTES * (NUM_LEAVES_OF_SEED_TREE - 1);
diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 2483191..3432d43 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* anything shorter than a signature without published seeds is malformed */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -78,15 +83,23 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the received signature is shorter than a full sign_t, which verify may
+     * read up to its end if the announced number of seeds is wrong */
+    sign_t sig = {0};
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                          // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..142254e 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -216,8 +216,13 @@ int LESS_verify(const pubkey_t *const PK,
     }
 
     unsigned char seed_tree[NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES] = {0};
-    rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
-                             (unsigned char *) &sig->seed_storage, sig->tree_salt);
+    const uint32_t num_seeds_used =
+            rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
+                                     (unsigned char *) &sig->seed_storage, sig->tree_salt);
+    /* the announced number of seeds must be the one the challenge requires */
+    if (sig->seed_storage[num_seeds_used*SEED_LENGTH_BYTES] != num_seeds_used) {
+        return 0;
+    }
 
     unsigned char *ephem_monomial_seeds = seed_tree +
                                           SEED_LENGTH_BYTES * (NUM_LEAVES_OF_SEED_TREE - 1);
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 4a4d110..1100428 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* anything shorter than a signature without published seeds is malformed */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,15 +84,23 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the received signature is shorter than a full sign_t, which verify may
+     * read up to its end if the announced number of seeds is wrong */
+    sign_t sig = {0};
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                          // in parameter
 
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
-- 
2.43.0


From c62cde796182b6b78f53956b0296ae5c1802e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 3/4] fix: LESS_verify ran out of bounds on malformed public
 keys

A wrong number of pivot flags made expand_to_rref read past the key and the
reduction fail unnoticed (more than N-K columns were then written), and an
entry equal to 127 made the vectorised reduction use uninitialised pointers.
expand_to_rref now reports both and verification rejects the key.
---
 Optimized_Implementation/common/include/codes.h |  5 +++--
 Optimized_Implementation/common/lib/LESS.c      |  5 ++++-
 Optimized_Implementation/common/lib/codes.c     | 15 ++++++++++++++-
 Reference_Implementation/include/codes.h        |  5 +++--
 Reference_Implementation/lib/LESS.c             |  5 ++++-
 Reference_Implementation/lib/codes.c            | 15 ++++++++++++++-
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..0c0455a 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one, returns 1 on
+ * success, 0 if the input is not the compression of an RREF matrix */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index 7482118..c68d008 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -266,7 +266,10 @@ int LESS_verify(const pubkey_t *const PK,
         } else {
             generator_mat_t G_hat = {0};
             /// TODO: this can be optimized: expand the matrix only once and save it.
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            /* Check that the public key holds a valid RREF matrix */
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..57b9e94 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -474,7 +474,7 @@ void compress_rref(uint8_t *compressed,
 
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
 {
     // Decompress pivot flags
@@ -502,6 +502,16 @@ void expand_to_rref(generator_mat_t *full,
     uint32_t compress_idx = N/8;
 #endif
 
+    // A matrix in RREF has exactly K pivot columns
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
+    int is_canonical = 1;
     // Decompress columns row-by-row
     uint32_t decode_state = 0;
     for (uint32_t row_idx = 0; row_idx < K; row_idx++) {
@@ -543,6 +553,8 @@ void expand_to_rref(generator_mat_t *full,
                     break;
                 }
                 
+                is_canonical &= (full->values[row_idx][col_idx] < Q);
+
                 if (decode_state != 7) {
                     decode_state++;
                 } else {
@@ -556,6 +568,7 @@ void expand_to_rref(generator_mat_t *full,
         }
     }
 
+    return is_canonical;
 } /* end expand_to_rref */
 
 
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..2594c8b 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one, returns 1 on
+ * success, 0 if the input is not the compression of an RREF matrix */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 142254e..dc3aff1 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -256,7 +256,10 @@ int LESS_verify(const pubkey_t *const PK,
             LESS_SHA3_INC_ABSORB(&state, (const uint8_t *) &V_array, sizeof(normalized_IS_t));
         } else {
             generator_mat_t G_hat = {0};
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            /* Check that the public key holds a valid RREF matrix */
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..900d5f5 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -415,7 +415,7 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
 }
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
+int expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
     uint8_t is_pivot_column[N] = {0};
     for (int col_byte = 0; col_byte < N / 8; col_byte++) {
@@ -441,6 +441,16 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     int compress_idx = N / 8;
 #endif
 
+    // A matrix in RREF has exactly K pivot columns
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
+    int is_canonical = 1;
     // Decompress columns row-by-row
     int decode_state = 0;
     for (int row_idx = 0; row_idx < K; row_idx++) {
@@ -501,6 +511,8 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
                         break;
                 }
 
+                is_canonical &= (full->values[row_idx][col_idx] < Q);
+
                 if (decode_state != 7) {
                     decode_state++;
                 } else {
@@ -514,6 +526,7 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
         }
     }
 
+    return is_canonical;
 } /* end expand_to_rref */
 
 
-- 
2.43.0


From 2a0c8bdaf62f019caa9417d4e821ab7d43cdae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 4/4] fix: crypto_sign_open accepted signatures announcing too
 many seeds

The count was checked only at the position the challenge requires, so a valid
signature followed by padding and a larger count was accepted as well.
---
 Optimized_Implementation/common/include/LESS.h |  9 +++++++++
 Optimized_Implementation/common/lib/LESS.c     | 15 +++++++++++++--
 Optimized_Implementation/common/lib/sign.c     | 11 +++++++----
 Reference_Implementation/include/LESS.h        |  9 +++++++++
 Reference_Implementation/lib/LESS.c            | 15 +++++++++++++--
 Reference_Implementation/lib/sign.c            | 12 +++++++-----
 6 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/Optimized_Implementation/common/include/LESS.h b/Optimized_Implementation/common/include/LESS.h
index 5d9c6c4..ba90bcd 100644
--- a/Optimized_Implementation/common/include/LESS.h
+++ b/Optimized_Implementation/common/include/LESS.h
@@ -81,3 +81,12 @@ int LESS_verify(const pubkey_t *const PK,
                 const char *const m,
                 const uint64_t mlen,
                 const sign_t *const sig);
+
+/* as LESS_verify, for a signature that was announced to publish
+ * num_seeds_published seeds: it is rejected if its challenge requires another
+ * number. NULL: the number stored behind the seeds is the announced one */
+int LESS_verify_announced(const pubkey_t *const PK,
+                          const char *const m,
+                          const uint64_t mlen,
+                          const sign_t *const sig,
+                          const uint32_t *const num_seeds_published);
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index c68d008..df210f3 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -213,6 +213,14 @@ int LESS_verify(const pubkey_t *const PK,
                 const char *const m,
                 const uint64_t mlen,
                 const sign_t *const sig) {
+    return LESS_verify_announced(PK, m, mlen, sig, NULL);
+}
+
+int LESS_verify_announced(const pubkey_t *const PK,
+                          const char *const m,
+                          const uint64_t mlen,
+                          const sign_t *const sig,
+                          const uint32_t *const num_seeds_published) {
 
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
@@ -229,7 +237,10 @@ int LESS_verify(const pubkey_t *const PK,
             rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
                                      (unsigned char *) &sig->seed_storage, sig->tree_salt);
     /* the announced number of seeds must be the one the challenge requires */
-    if (sig->seed_storage[num_seeds_used*SEED_LENGTH_BYTES] != num_seeds_used) {
+    const uint32_t num_seeds_announced =
+            num_seeds_published ? *num_seeds_published
+                                : sig->seed_storage[num_seeds_used*SEED_LENGTH_BYTES];
+    if (num_seeds_announced != num_seeds_used) {
         return 0;
     }
 
@@ -312,4 +323,4 @@ int LESS_verify(const pubkey_t *const PK,
     return (timing_safe_memcmp(recomputed_digest,
                                sig->digest,
                                HASH_DIGEST_LENGTH) == 0);
-} /* end LESS_verify */
+} /* end LESS_verify_announced */
diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 3432d43..b9e2dbf 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -96,10 +96,13 @@ int crypto_sign_open(unsigned char *m,
     memcpy(&sig, sm + *mlen, sig_len);
 
     /* verify returns 1 if signature is ok, 0 otherwise */
-    int ok = LESS_verify((const pubkey_t *const)
-                                 pk,                                    // in parameter
-                         (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         &sig);                                          // in parameter
+    const uint32_t num_seeds_announced = num_seeds_published;
+    int ok = LESS_verify_announced((const pubkey_t *const)
+                                           pk,                           // in parameter
+                                   (const char *const) m,                // in parameter
+                                   (const uint64_t) *mlen,               // in parameter
+                                   &sig,                                 // in parameter
+                                   &num_seeds_announced);                // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
diff --git a/Reference_Implementation/include/LESS.h b/Reference_Implementation/include/LESS.h
index 9813dab..a9e4802 100644
--- a/Reference_Implementation/include/LESS.h
+++ b/Reference_Implementation/include/LESS.h
@@ -75,3 +75,12 @@ int LESS_verify(const pubkey_t *const PK,
                 const char *const m,
                 const uint64_t mlen,
                 const sign_t *const sig);
+
+/* as LESS_verify, for a signature that was announced to publish
+ * num_seeds_published seeds: it is rejected if its challenge requires another
+ * number. NULL: the number stored behind the seeds is the announced one */
+int LESS_verify_announced(const pubkey_t *const PK,
+                          const char *const m,
+                          const uint64_t mlen,
+                          const sign_t *const sig,
+                          const uint32_t *const num_seeds_published);
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index dc3aff1..9173e4f 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -204,6 +204,14 @@ int LESS_verify(const pubkey_t *const PK,
                 const char *const m,
                 const uint64_t mlen,
                 const sign_t *const sig) {
+    return LESS_verify_announced(PK, m, mlen, sig, NULL);
+}
+
+int LESS_verify_announced(const pubkey_t *const PK,
+                          const char *const m,
+                          const uint64_t mlen,
+                          const sign_t *const sig,
+                          const uint32_t *const num_seeds_published) {
 
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
@@ -220,7 +228,10 @@ int LESS_verify(const pubkey_t *const PK,
             rebuild_seed_tree_leaves(seed_tree, published_seed_indexes,
                                      (unsigned char *) &sig->seed_storage, sig->tree_salt);
     /* the announced number of seeds must be the one the challenge requires */
-    if (sig->seed_storage[num_seeds_used*SEED_LENGTH_BYTES] != num_seeds_used) {
+    const uint32_t num_seeds_announced =
+            num_seeds_published ? *num_seeds_published
+                                : sig->seed_storage[num_seeds_used*SEED_LENGTH_BYTES];
+    if (num_seeds_announced != num_seeds_used) {
         return 0;
     }
 
@@ -302,4 +313,4 @@ int LESS_verify(const pubkey_t *const PK,
     return (timing_safe_memcmp(recomputed_digest,
                                sig->digest,
                                HASH_DIGEST_LENGTH) == 0);
-} /* end LESS_verify */
+} /* end LESS_verify_announced */
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 1100428..27ff521 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -97,11 +97,13 @@ int crypto_sign_open(unsigned char *m,
     memcpy(&sig, sm + *mlen, sig_len);
 
     /* verify returns 1 if signature is ok, 0 otherwise */
-    int ok = LESS_verify((const pubkey_t *const)
-                                 pk,                                    // in parameter
-                         (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         &sig);                                          // in parameter
-
+    const uint32_t num_seeds_announced = num_seeds_published;
+    int ok = LESS_verify_announced((const pubkey_t *const)
+                                           pk,                           // in parameter
+                                   (const char *const) m,                // in parameter
+                                   (const uint64_t) *mlen,               // in parameter
+                                   &sig,                                 // in parameter
+                                   &num_seeds_announced);                // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
-- 
2.43.0

