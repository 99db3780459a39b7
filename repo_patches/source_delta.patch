From c890558bc6fcd662b78a0667688b05bc177f0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 01/14] fix: reject variable-length integers longer than 64
 bits

---
 src/common/gve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/gve.c b/src/common/gve.c
index 5e60469..b80dca9 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -63,6 +63,8 @@ gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val) {
     gve_result_e res = GVE_ERR_DATA_SIZE;
     while (shift < 64) {
         if ((res = gve_get_u8(buffer, &byte)) != GVE_OK) break;
+        // the last byte holds only the most significant bit and always ends the encoding
+        if (shift == 63 && byte > 1) return GVE_ERR_INT_TO_BIG;
         *val |= (uint64_t) (byte & 0x7F) << shift;
         if ((byte & 0x80) == 0) {
             res = GVE_OK;
-- 
2.43.0


From 2dd55815312e5d939a1eb7b2524cb011b6351da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 02/14] fix: read back every 32-bit signed integer that is
 written

---
 src/common/gve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index b80dca9..a6dd340 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -32,7 +32,8 @@ gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val) {
     gve_result_e res;
     *val = 0;
     if ((res = gve_get_u64(buffer, &u64)) != GVE_OK) return res;
-    if (u64 > 0xFFFFFFFFULL) return GVE_ERR_INT_TO_BIG;
+    // the zigzag value is written sign-extended to 64 bits, see zigzag_encode_i32
+    if (u64 > UINT32_MAX && u64 < (uint64_t) INT32_MIN) return GVE_ERR_INT_TO_BIG;
     *val = zigzag_decode_i32(u64);
     return GVE_OK;
 }
-- 
2.43.0


From b1f4b7073d10238af4e2744145ce005d4725c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 03/14] fix: keep the write position of a buffer at or after
 its read position

---
 src/common/rwbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/rwbuffer.c b/src/common/rwbuffer.c
index 686efe9..08fcdfa 100644
--- a/src/common/rwbuffer.c
+++ b/src/common/rwbuffer.c
@@ -7,7 +7,7 @@
 #include "rwbuffer.h"
 
 bool rw_buffer_seek_write_set(rw_buffer_t *buffer, size_t offset) {
-    if (offset > buffer->size) {
+    if (offset > buffer->size || offset < buffer->read.offset) {
         return false;
     }
     buffer->read.size = offset;
@@ -24,7 +24,7 @@ bool rw_buffer_seek_write_cur(rw_buffer_t *buffer, size_t offset) {
 }
 
 bool rw_buffer_seek_write_end(rw_buffer_t *buffer, size_t offset) {
-    if (offset > buffer->size) {
+    if (offset > buffer->size || buffer->size - offset < buffer->read.offset) {
         return false;
     }
     buffer->read.size = buffer->size - offset;
-- 
2.43.0


From 7453ca82dcb96b56cb23fadf30bb180b8026d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 04/14] fix: avoid signed overflow when adding to the smallest
 64-bit amount

---
 src/common/safeint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/safeint.h b/src/common/safeint.h
index e3c1ab0..142d01e 100644
--- a/src/common/safeint.h
+++ b/src/common/safeint.h
@@ -18,7 +18,7 @@ static inline bool checked_sub_u64(uint64_t l, uint64_t r, uint64_t* out) {
 static inline bool checked_add_i64(int64_t l, uint64_t r, int64_t* out) {
     if (l < 0) {
         // If r is so big that even without "l" it will overflow int64_t.
-        if (r >= (uint64_t) -l && r + l > INT64_MAX) return false;
+        if (r >= -(uint64_t) l && r + l > INT64_MAX) return false;
     } else {
         // if r is bigger than int64_t or r + l is bigger than int64_t.
         if (r > INT64_MAX || INT64_MAX - r < (uint64_t) l) return false;
-- 
2.43.0


From 1058fc49d91865130c3556052f68df406be4a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 05/14] fix: compare whole derivation paths

---
 src/common/bip32_ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..4a8f071 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
-- 
2.43.0


From 6923cba6642d3f13d17bd4b526852554f90b3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 06/14] fix: compare all of the account part of derivation
 paths

---
 src/common/bip32_ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 4a8f071..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From 45a3f8e2c02ea1f63d5275cfd09d3c7fc0d7c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 07/14] fix: reject Schnorr scalars equal to the group order

---
 src/ergo/schnorr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index b703311..776d60e 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -41,7 +41,7 @@ bool ergo_secp256k1_schnorr_p2pk_sign_init(cx_blake2b_t* hash,
             // check private key has a proper value
             if (cx_math_is_zero(secret, PRIVATE_KEY_LEN)) break;
             if (cx_math_cmp_no_throw(secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
-                cmp_diff > 0)
+                cmp_diff >= 0)
                 break;
 
             // pk = G * secret (pub key)
@@ -63,7 +63,7 @@ bool ergo_secp256k1_schnorr_p2pk_sign_init(cx_blake2b_t* hash,
             // check it has a proper value
             if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;
             if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
-                cmp_diff > 0)
+                cmp_diff >= 0)
                 break;
 
             // w = G * y (pub key)
-- 
2.43.0


From ba36890e03e93a39b07c418eb909f7a8a281d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 08/14] fix: wipe the signing buffer when signing fails

---
 src/ergo/schnorr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index 776d60e..37284e9 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -103,16 +103,15 @@ bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t signature[static ERGO_SIGNA
     if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;
 
     // z = c * secret + key
-    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0)
-        return false;
-    if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
+    bool result =
+        cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) == 0 &&
+        cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                               key,
                               buf,
                               PIC(SECP256K1_N),
-                              PRIVATE_KEY_LEN) != 0)
-        return false;
+                              PRIVATE_KEY_LEN) == 0;
 
     explicit_bzero(buf, sizeof(buf));
 
-    return true;
+    return result;
 }
-- 
2.43.0


From 1dc4d1f9c4e1d352f84ea40d096f7b20900091f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 09/14] fix: wipe the derived key material when derivation
 fails

---
 src/helpers/crypto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helpers/crypto.c b/src/helpers/crypto.c
index c2744c9..65794f1 100644
--- a/src/helpers/crypto.c
+++ b/src/helpers/crypto.c
@@ -34,6 +34,7 @@ uint16_t crypto_derive_private_key(cx_ecfp_256_private_key_t *private_key,
                                                raw_private_key,
                                                chain_code);
     if (result != CX_OK) {
+        explicit_bzero(raw_private_key, sizeof(raw_private_key));
         return (uint16_t) result;
     }
 
-- 
2.43.0


From 7bd6575fd244a445cc8a75b3f287de56583454b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 10/14] fix: avoid signed overflow when showing a minted amount

---
 src/commands/signtx/stx_ui.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index a8e26de..c79cd60 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -334,7 +334,7 @@ static NOINLINE uint16_t ui_stx_display_tx_state(uint8_t screen,
                 int64_t value = ctx->amounts->tokens[token_idx];
                 if (value < 0) {  // output > inputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Minting: ");
-                    format_u64(text, text_len, -value);
+                    format_u64(text, text_len, -(uint64_t) value);
                 } else {  // inputs > outputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Burning: ");
                     format_u64(text, text_len, value);
-- 
2.43.0


From b4bacd0b6878c2c992b9e0c546a24a6b2b580cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 11/14] fix: refuse further box data after a truncated token
 index

---
 src/ergo/tx_ser_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index 656ddf6..bfa77ff 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -206,7 +206,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(
             }
         } else {
             if (!buffer_read_u32(input, &token_id.index, BE)) {
-                return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX;
+                return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX);
             }
             // index should be inside table
             if (token_id.index >= table->distinct_tokens_count) {
-- 
2.43.0


From 46a54571619faae1087cb6c1fbc056536c179d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 12/14] fix: refuse a new output while the previous one is
 incomplete

---
 src/ergo/tx_ser_full.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..088c872 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,10 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From f49e7c4020984c793073838d68c479fa68ac7529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 13/14] fix: refuse token amounts above the signed 64-bit range

---
 src/commands/signtx/stx_amounts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/signtx/stx_amounts.c b/src/commands/signtx/stx_amounts.c
index 316ec55..84828ab 100644
--- a/src/commands/signtx/stx_amounts.c
+++ b/src/commands/signtx/stx_amounts.c
@@ -7,6 +7,8 @@ ergo_tx_serializer_input_result_e stx_amounts_add_input_token(
     const uint8_t tn_id[static ERGO_ID_LEN],
     uint64_t value) {
     UNUSED(box_id);
+    // sums are signed
+    if (value > INT64_MAX) return ERGO_TX_SERIALIZER_INPUT_RES_ERR_U64_OVERFLOW;
     // searching for token in table
     uint8_t index = token_table_find_token_index(&ctx->tokens_table, tn_id);
     if (!IS_ELEMENT_FOUND(index)) {
@@ -51,6 +53,8 @@ ergo_tx_serializer_box_result_e stx_amounts_add_output_token(sign_transaction_am
                                                              const uint8_t id[static ERGO_ID_LEN],
                                                              uint64_t value) {
     UNUSED(type);
+    // sums are signed
+    if (value > INT64_MAX) return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
     uint8_t index = token_table_find_token_index(&ctx->tokens_table, id);
     if (!IS_ELEMENT_FOUND(index)) {
         return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_ID;
-- 
2.43.0


From b1046fa18c21a8704b71673913be2bc2476427e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 14/14] fix: refuse input frames with more tokens than a frame
 may hold

---
 src/helpers/input_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helpers/input_frame.c b/src/helpers/input_frame.c
index 51d3922..fc51e3a 100644
--- a/src/helpers/input_frame.c
+++ b/src/helpers/input_frame.c
@@ -6,6 +6,9 @@ uint8_t input_frame_data_length(const buffer_t* input) {
         return 0;
     }
     uint8_t token_count = buffer_read_ptr(input)[FRAME_TOKEN_COUNT_POSITION];
+    if (token_count > FRAME_MAX_TOKENS_COUNT) {
+        return 0;
+    }
     uint8_t data_len = token_count * FRAME_TOKEN_VALUE_PAIR_SIZE + FRAME_TOKEN_PREFIX_LEN;
     if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {
         return 0;
-- 
2.43.0

