From 50df95338b64a64947357b58c6a17096fca763f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 01/20] fix: clear the extra SHA-1/SHA-2 padding block before
 writing the length

---
 src/hashes/sha1.c         | 1 +
 src/hashes/sha2-backend.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/hashes/sha1.c b/src/hashes/sha1.c
index bdb7758..a1abcb3 100644
--- a/src/hashes/sha1.c
+++ b/src/hashes/sha1.c
@@ -95,6 +95,7 @@ static void sha1_padding(struct pgfe_sha1_ctx *ctx) {
         memset(ctx->block + ctx->index, 0, PGFE_SHA1_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA1_BLOCK_SIZE;
         sha1_process_block(ctx);
+        memset(ctx->block, 0, 56);
     }
     else if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 57677c0..d08239c 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -82,6 +82,7 @@ void sha224n256_padding(struct pgfe_sha256_ctx *ctx) {
         memset(ctx->block + ctx->index, 0, PGFE_SHA256_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA256_BLOCK_SIZE;
         sha256_process_block(ctx);
+        memset(ctx->block, 0, 56);
     }
     else if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
@@ -222,6 +223,7 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
         memset(&ctx->block[ctx->index], 0, PGFE_SHA512_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA512_BLOCK_SIZE;
         sha384n512_process_block(ctx);
+        memset(ctx->block, 0, 112);
     }
     else if (ctx->index < 112) {
         memset(&ctx->block[ctx->index], 0, 112 - ctx->index);
-- 
2.43.0


From 2bdf249e9666d604cceeccea5d53ea7462bf95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 02/20] fix: do not use uninitialised block offsets in an empty
 MD5 update

---
 src/hashes/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashes/md5.c b/src/hashes/md5.c
index f6ceaf8..4a90d52 100644
--- a/src/hashes/md5.c
+++ b/src/hashes/md5.c
@@ -30,7 +30,7 @@ void pgfe_md5_init(struct pgfe_md5_ctx *ctx) {
 }
 
 void pgfe_md5_update(struct pgfe_md5_ctx *ctx, const pgfe_encode_t input[], size_t length) {
-    if (!ctx || !input) return;
+    if (!ctx || !input || !length) return;
 
     size_t read_len, written_len, remainder, offset;
     const pgfe_encode_t *p;
-- 
2.43.0


From 183b041744788d36b35387bbe5c864d275981342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 03/20] fix: do not cut SHA updates of 2 GiB and more short

---
 src/hashes/sha2-backend.c | 2 +-
 src/hashes/templates.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index d08239c..a0aa1f7 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -196,7 +196,7 @@ void sha384n512_update(struct pgfe_sha512_ctx *ctx, const pgfe_encode_t input[],
     const pgfe_encode_t *inp = input;
     int corrupt_flag = 0, tmpflag;
     uint64_t tmp_low;
-    for (int i = 0; i < length && !corrupt_flag; i++) {
+    for (size_t i = 0; i < length && !corrupt_flag; i++) {
         ctx->block[ctx->index++] = *inp;
 
         tmp_low = ctx->len_low;
diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 88a9a2c..5b62e5d 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -139,7 +139,7 @@ extern "C" {
         const pgfe_encode_t *inp = input;                                                                              \
         int corrupt_flag = 0;                                                                                          \
         uint32_t tmp_low;                                                                                              \
-        for (int i = 0; i < length && !corrupt_flag; i++) {                                                            \
+        for (size_t i = 0; i < length && !corrupt_flag; i++) {                                                            \
             ctx->block[ctx->index++] = *inp;                                                                           \
                                                                                                                        \
             tmp_low = ctx->len_low;                                                                                    \
-- 
2.43.0


From 00d354165a5ed0a840e8232e5e100b410bd65f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 04/20] fix: hash HMAC keys longer than the block instead of
 cutting them

---
 src/hmac/hmac.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index 3474c27..eb50574 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -21,6 +21,12 @@
     void pgfe_hmac_##name##_set_key(                                                                                   \
         struct pgfe_hmac_##name##_ctx *ctx, const pgfe_encode_t key[], size_t key_length                               \
     ) {                                                                                                                \
+        pgfe_encode_t key_hash[PGFE_##upper##_DIGEST_SIZE];                                                            \
+        if (key_length > PGFE_##upper##_BLOCK_SIZE) {                                                                  \
+            pgfe_##name##_encode(key, key_length, key_hash);                                                           \
+            key = key_hash;                                                                                            \
+            key_length = PGFE_##upper##_DIGEST_SIZE;                                                                   \
+        }                                                                                                              \
         arrcpy(ctx->k_i_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         arrcpy(ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         for (size_t i = 0; i < PGFE_##upper##_BLOCK_SIZE; i++) {                                                       \
-- 
2.43.0


From 7824173e64ca2a1272490bac36dbcfd7cbffb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 05/20] fix: stop regrouping base-encoding bits at the end of
 the input

---
 src/base_encoding/base-encoding-internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 9d21d79..3b103f2 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -23,7 +23,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
     const uint8_t chunk_mask = __mkmask(chunk_size);
 
-    for (low = 0, high = chunk_size % __bitsz; inp - input <= length; inp++, op++) {
+    for (low = 0, high = chunk_size % __bitsz; inp - input < length; inp++, op++) {
         if (low < high) {
             *op = ((*inp) >> (__bitsz - high)) & chunk_mask;
             inp--;
-- 
2.43.0


From dbce6dc996de2fe910da251739841c68fbdbdbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 06/20] fix: pad base encodings by the number of missing bytes,
 not by the characters written

---
 src/base_encoding/base-encoding-internal.c | 13 ++++---------
 src/base_encoding/base-encoding-internal.h |  2 +-
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 3b103f2..600d781 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -49,7 +49,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
 size_t unittostr(
     size_t chunk_count, size_t unit_size, size_t bit_size, size_t alphabet_size, const char alphabet[],
-    const pgfe_encode_t unit[], char out[], bool padding
+    const pgfe_encode_t unit[], char out[], size_t missing
 ) {
     char unit_s[chunk_count];
     pgfe_encode_t unit_split[chunk_count];
@@ -60,14 +60,9 @@ size_t unittostr(
         unit_s[i] = alphabet[unit_split[i]];
     }
 
-    if (padding) {
-        for (i = chunk_count - 1; i >= 0; i--) {
-            if (unit_s[i] != alphabet[0]) {
-                break;
-            }
-
-            unit_s[i] = alphabet[alphabet_size];
-        }
+    // Pad the chunks that hold no bits of the input
+    for (i = chunk_count - missing * __bitsz / bit_size; i < chunk_count; i++) {
+        unit_s[i] = alphabet[alphabet_size];
     }
 
     memcpy(out, unit_s, chunk_count);
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 2f9ff7d..b4cd9d1 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -36,7 +36,7 @@ pgfe_encode_t decode_base16_char(char base16_c);
 
 size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size, pgfe_encode_t out[]);
 
-size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], bool padding);
+size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], size_t missing);
 
 size_t encode_base_generic(
     PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t input[], size_t input_length, char cs_out[]
-- 
2.43.0


From 518006f8f75e637a42113394f0764c02bfd96fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 07/20] fix: decode base encodings by counting their bits, so
 zero bytes, empty and over-padded text work

---
 src/base_encoding/base-encoding-internal.c | 50 ++++++++--------------
 src/base_encoding/base-encoding-internal.h |  2 +-
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 600d781..23efa17 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -98,46 +98,34 @@ size_t encode_base_generic(
 
 size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]) {
-    pgfe_encode_t *op, ch, sig, o_unit[unit_size];
-    const char *sp = basexx_cs;
-    size_t i, j;
-    uint64_t u;
+    pgfe_encode_t *op = output, ch, sig;
+    const char *sp;
+    size_t bits = 0;
+    uint64_t u = 0;
     const uint8_t mask = __mkmask(bit_size);
 
-    u = 0;
-    op = output;
-    while (*sp) {
-        for (i = 0; *sp && i < chunk_count; sp++) {
-            ch = func(*sp);
-            sig = ch & 0xC0;
+    for (sp = basexx_cs; *sp; sp++) {
+        ch = func(*sp);
+        sig = ch & 0xC0;
 
-            if (sig == UNKNOWN_CODE) {
-                continue;
-            }
-
-            u = (u << bit_size) | (ch & mask);
-
-            i++;
+        if (sig == UNKNOWN_CODE) {
+            continue;
         }
 
-        if (!*sp && i < chunk_count) {
-            u <<= bit_size * (chunk_count - i);
+        // Padding: end of the data
+        if (sig == PADDING_CODE) {
+            break;
         }
 
-        for (j = 0; j < unit_size; j++) {
-            o_unit[j] = (pgfe_encode_t)((u >> (__bitsz * (unit_size - j - 1))) & 0xFF);
-        }
+        u = (u << bit_size) | (ch & mask);
+        bits += bit_size;
 
-        memcpy(op, o_unit, unit_size);
-        op += unit_size;
+        if (bits >= __bitsz) {
+            bits -= __bitsz;
+            *op++ = (pgfe_encode_t)((u >> bits) & 0xFF);
+        }
     }
 
-    // Determine end of the output
-    op -= unit_size;
-    for (i = 0; i < unit_size && op[i] == o_unit[i] && op[i]; i++)
-        ;
-
-    op += i;
     *op = 0;
     return op - output;
-}
\ No newline at end of file
+}
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index b4cd9d1..bef25fc 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -18,7 +18,7 @@
 extern "C" {
 #endif
 
-#define PADDING_CODE (0x00)
+#define PADDING_CODE (0x80)
 #define UNKNOWN_CODE (0xC0)
 
 #define PGFE_BASE_PARAMS(upper)                                                                                        \
-- 
2.43.0


From 99d7e53f659952e5911937689b8e3beb6cf8f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 08/20] fix: count hex digits, not characters, when parsing hex
 text; do not read past empty text

---
 src/core/utils.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7fa55f6..7a942bf 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -12,6 +12,10 @@
 
 #include "./generic-internal.h"
 
+static const char *skip_hex_prefix(const char hash_s[]) {
+    return hash_s[0] == '0' && (hash_s[1] == 'x' || hash_s[1] == 'X') ? hash_s + 2 : hash_s;
+}
+
 size_t pgfe_hash_to_hex_string(const pgfe_encode_t hash[], size_t hash_length, char out[]) {
     char *op = out, dual_hex[3];
 
@@ -27,23 +31,19 @@ size_t pgfe_hash_to_hex_string(const pgfe_encode_t hash[], size_t hash_length, c
 }
 
 size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
-    short pos;
-    size_t hash_str_len = strlen(hash_s);
+    short pos = 0;
     pgfe_encode_t hexu = 0, tmp_o, *op;
-    char *sp = (char *)hash_s, tpc;
-
-    tpc = hash_s[1];
-    if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
-        sp += 2;
-        hash_str_len -= 2;
-    }
+    const char *sp, *start = skip_hex_prefix(hash_s);
 
-    tpc = sp[hash_str_len - 1];
-    if (tpc == 'h' || tpc == 'H') {
-        hash_str_len--;
+    // An odd number of digits reads as if preceded by a zero
+    for (sp = start; *sp; sp++) {
+        ch2hex(*sp, &tmp_o);
+        if (tmp_o != PGFE_HEX_UNKNOWN_CHAR) {
+            pos ^= 1;
+        }
     }
 
-    for (op = hash_out, pos = hash_str_len % 2; *sp; sp++) {
+    for (op = hash_out, sp = start; *sp; sp++) {
         ch2hex(*sp, &tmp_o);
 
         if (tmp_o == PGFE_HEX_UNKNOWN_CHAR) {
-- 
2.43.0


From 72e0c9f0d5223cdf297440c632518a40a26371ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 09/20] fix: drop a 0x prefix only, not any digit before an x,
 when cleaning hex text

---
 src/core/utils.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7a942bf..cbb1da5 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -73,17 +73,10 @@ void pgfe_print_hash(const pgfe_encode_t hash[], size_t length) {
 
 size_t pgfe_hash_string_clean(const char hash_s[], char output[]) {
     pgfe_encode_t h;
-    char *sp = (char *)hash_s, *op = output;
-    int offset_flag = -1;
+    const char *sp = skip_hex_prefix(hash_s);
+    char *op = output;
 
     for (; *sp; sp++) {
-        if (offset_flag < 2) {
-            if (++offset_flag == 1 && (*sp == 'x' || *sp == 'X')) {
-                op = output;
-                continue;
-            }
-        }
-
         ch2hex(*sp, &h);
         if (h == PGFE_HEX_UNKNOWN_CHAR) {
             continue;
-- 
2.43.0


From c362d092c40513097932783b50a9bf2caba08d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 10/20] fix: trim zero bytes from sequences, which searching
 for an empty C string never did

---
 src/core/sequential_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 69d8c60..97b14c8 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -72,9 +72,9 @@ inline void SequentialData::trim_() {
 }
 
 inline void SequentialData::trim_left_() {
-    erase(0, find_first_not_of(ws));
+    erase(0, find_first_not_of(ws[0]));
 }
 
 inline void SequentialData::trim_right_() {
-    erase(find_last_not_of(ws) + 1, length());
+    erase(find_last_not_of(ws[0]) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From b20ec2c5d676fc2ea50393f3207a9ad2c13c3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 11/20] fix: export the in-place trim functions the header
 declares

---
 src/core/sequential_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 97b14c8..c175492 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -66,15 +66,15 @@ SequentialData SequentialData::trim_right() {
     return sd;
 }
 
-inline void SequentialData::trim_() {
+void SequentialData::trim_() {
     trim_left_();
     trim_right_();
 }
 
-inline void SequentialData::trim_left_() {
+void SequentialData::trim_left_() {
     erase(0, find_first_not_of(ws[0]));
 }
 
-inline void SequentialData::trim_right_() {
+void SequentialData::trim_right_() {
     erase(find_last_not_of(ws[0]) + 1, length());
 }
\ No newline at end of file
-- 
2.43.0


From 7d32b57b291e2d5ea04f16f06d2457ffa8e245f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 12/20] fix: size HashEncoder digests in bytes, with room for
 the whole digest and for default XOF output

---
 src/hashes/hash_encoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index e4c64a4..cefabf2 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -100,8 +100,6 @@ inline void HashEncoder::update(SequentialData &sd) {
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-    uint64_t in_len = to_byte(bitlength) + bit_rem(bitlength);
-
     if (!bitlength) {
         if (this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128) {
             bitlength = 256;
@@ -111,8 +109,11 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         }
     }
 
+    uint64_t in_len = to_byte(bitlength) + (bit_rem(bitlength) ? 1 : 0);
     size_t length = shake_flag ? in_len : in_len < digsz && bitlength ? in_len : digsz;
-    pgfe_encode_t seq[length];
+    // A fixed-size digest is always written in full
+    pgfe_encode_t seq[length < digsz ? digsz : length];
+    bitlength = to_bit(length);
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
-- 
2.43.0


From ec5f36e40138b2d010c53c7d2fcf96cd0f5c0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 13/20] fix: do not take leftover memory for the selected
 algorithm and skip its set-up

---
 include/libpgfe/algorithm_selectable.hpp | 1 +
 src/core/algorithm_selectable.cpp        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index ad450c0..f8d34cf 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -20,6 +20,7 @@ class AlgorithmSelectable
 {
 protected:
     pgfe_algorithm_choice cur_alg;
+    bool selected = false;
 
     virtual void before_change_alg() {}
     virtual void after_change_alg() {}
diff --git a/src/core/algorithm_selectable.cpp b/src/core/algorithm_selectable.cpp
index e0783d8..086748c 100644
--- a/src/core/algorithm_selectable.cpp
+++ b/src/core/algorithm_selectable.cpp
@@ -10,10 +10,11 @@
 using namespace libpgfe;
 
 void AlgorithmSelectable::select_algorithm(pgfe_algorithm_choice choice) {
-    if (choice == cur_alg) return;
+    if (selected && choice == cur_alg) return;
 
     before_change_alg();
     cur_alg = choice;
+    selected = true;
     after_change_alg();
 }
 
-- 
2.43.0


From 4c4354a4fddb848a172fd14e31b2cb7879a9e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 14/20] fix: fetch a sequence's length before passing it, not
 in unspecified argument order

---
 include/libpgfe/abstract_encoder.hpp | 3 ++-
 src/hmac/hmac_encoder.cpp            | 3 ++-
 src/otp/abstract_otp.cpp             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index 766b137..c5f601b 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -35,7 +35,8 @@ public:
     }
     virtual void update(SequentialData &sd) {
         size_t sz;
-        update(sd.to_pgfe_seq(sz), sz);
+        const pgfe_encode_t *seq = sd.to_pgfe_seq(sz);
+        update(seq, sz);
     }
 
     virtual const SequentialData *get_digest() {
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 5276ecd..9703b15 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -74,7 +74,8 @@ void HMACEncoder::set_key(std::string &cpp_s) {
 
 void HMACEncoder::set_key(SequentialData &sd) {
     size_t sz;
-    set_key(sd.to_pgfe_seq(sz), sz);
+    const pgfe_encode_t *seq = sd.to_pgfe_seq(sz);
+    set_key(seq, sz);
 }
 
 void HMACEncoder::update(const pgfe_encode_t sequence[], size_t length) {
diff --git a/src/otp/abstract_otp.cpp b/src/otp/abstract_otp.cpp
index 036d298..8ef5ffe 100644
--- a/src/otp/abstract_otp.cpp
+++ b/src/otp/abstract_otp.cpp
@@ -21,7 +21,8 @@ void AbstractOTP::set_secret(const std::string &cpp_s) {
 
 void AbstractOTP::set_secret(const SequentialData &sd) {
     size_t sz;
-    set_secret(sd.to_pgfe_seq(sz), sz);
+    const pgfe_encode_t *seq = sd.to_pgfe_seq(sz);
+    set_secret(seq, sz);
 }
 
 std::string AbstractOTP::generate_str(uint8_t digit_count) const {
-- 
2.43.0


From 4175aed1c1d31cad51047251ac5b7600bb24ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 15/20] fix: keep the OTP truncation window inside short MACs

---
 src/otp/otp-generic.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/otp/otp-generic.c b/src/otp/otp-generic.c
index f8674a2..8679417 100644
--- a/src/otp/otp-generic.c
+++ b/src/otp/otp-generic.c
@@ -14,6 +14,11 @@ pgfe_otp_t dynamically_truncate(const pgfe_encode_t hash[], size_t length) {
     uint8_t offset = hash[length - 1] & 0xF;
     pgfe_otp_t code = 0;
 
+    // Short digests (MD5) do not have room for every offset
+    if (offset > length - SIZE) {
+        offset = length - SIZE;
+    }
+
     for (size_t i = 0; i < SIZE; i++) {
         code <<= ENS_BIT;
         code |= hash[offset + i];
-- 
2.43.0


From 539b2798435f871fef0e812f4f2eb56aa90177ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 16/20] fix: start HOTP objects at counter 0 instead of
 leftover memory

---
 include/libpgfe/otp/hotp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index b27b1f1..eaf047f 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,7 +24,7 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co;
+    pgfe_otp_counter_t co = 0;
 
     Base32 base32;
 
-- 
2.43.0


From c911781593a2b3aa155af12baec4098a8ddf4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 17/20] fix: recompute the TOTP counter after its interval or
 initial time changes

---
 src/otp/totp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 3d23e64..9fe095d 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -42,6 +42,7 @@ TOTP::~TOTP() {}
 
 void TOTP::set_interval(pgfe_totp_interval_t interval) {
     this->_interval = interval;
+    delta = 0; // the cached counter is out of date
 }
 
 pgfe_totp_interval_t TOTP::interval() const {
@@ -54,6 +55,7 @@ time_t TOTP::initial_time() const {
 
 void TOTP::set_initial_time(time_t _initial_time) {
     this->_initial_time = _initial_time;
+    delta = 0; // the cached counter is out of date
 }
 
 time_t TOTP::update_time() const {
-- 
2.43.0


From 87bbfe043b0cc92cf0ff2abfd9673a58308f1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 18/20] fix: make room for the padded last group in
 Blowfish::encrypt and decrypt

---
 src/fishes/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index a28e84b..7b738c8 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -25,7 +25,7 @@ Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
 Blowfish::~Blowfish() {}
 
 SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_encrypt(&ctx, seq, length, output.get());
@@ -33,7 +33,7 @@ SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
 }
 
 SequentialData Blowfish::decrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_decrypt(&ctx, seq, length, output.get());
-- 
2.43.0


From 75b19e502cd1786ed140bb79316ee0625a96bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 19/20] fix: use the whole std::string as Blowfish key, not
 only up to its first NUL

---
 src/fishes/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index 7b738c8..dd59299 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -20,7 +20,7 @@ Blowfish::Blowfish(const pgfe_encode_t *key, size_t length) {
     pgfe_blowfish_init(&ctx, key, length);
 }
 
-Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
+Blowfish::Blowfish(const std::string &key) : Blowfish((const pgfe_encode_t *)key.c_str(), key.length()) {}
 
 Blowfish::~Blowfish() {}
 
-- 
2.43.0


From 312f931b262c8cff1badd88a739f11a118b3d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:41 +0000
Subject: [PATCH 20/20] fix: absorb data of 512 MiB and more into a Keccak
 sponge with pending bytes

The number of bits left was cut to 32 bits before being compared with the
room in the queue, so a large update after a partial block wrote far beyond
the queue or never ended.
---
 src/hashes/keccak-backend.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index de66566..e598124 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -182,9 +182,9 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
             i += whole_blocks * ctx->rate;
         }
         else {
-            partial_block = (uint32_t)(bit_len - i);
-            if (partial_block + ctx->inqueue_bits > ctx->rate) {
-                partial_block = ctx->rate - ctx->inqueue_bits;
+            partial_block = ctx->rate - ctx->inqueue_bits;
+            if (bit_len - i < partial_block) {
+                partial_block = (uint32_t)(bit_len - i);
             }
 
             partial_byte = bit_rem(partial_block);
-- 
2.43.0

