From e708332a2a26647cce14c7ac771520cf2b8a68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:10 +0000
Subject: [PATCH 01/39] fix: padding helpers must not realloc the caller's
 buffer (dangling pointer and leak in CBC)

---
 src/modes/cbc128.c  | 9 +++++++--
 src/utils/padding.c | 4 ----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..621df58 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -5,8 +5,12 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
     int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
-    len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
+    unsigned char *pad_in = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen) + 1);
+    unsigned char *afin = pad_in;
+    if(pad_in==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, pad_in);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }
@@ -40,6 +44,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(pad_in);
     return ret;
 }
 
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..4477f5d 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -66,7 +63,6 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
-- 
2.43.0


From 75e755eb0190b77af9cf321d0ef9e097a5baef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:13 +0000
Subject: [PATCH 02/39] fix: remove only a complete PKCS#7 fill; empty input
 read src[-1]

---
 src/utils/padding.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 4477f5d..5bfc4f8 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -58,11 +58,7 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
-        pad_num = 0;
-    }
-    afpad_len = srclen - pad_num;
+    size_t afpad_len = WBCRYPTO_padding_pkcs7_separate_length(src, srclen);
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
@@ -74,11 +70,20 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
-        pad_num = 0;
+    size_t i, pad_num;
+    if(srclen == 0){
+        return 0;
     }
-    afpad_len = srclen - pad_num;
-    return afpad_len;
+    pad_num = src[srclen-1];
+    //only a complete #pkcs7 fill is removed, anything else is message
+    if(pad_num == 0 || pad_num > 16 || pad_num > srclen){
+        return srclen;
+    }
+    for(i=srclen-pad_num;i<srclen;i++){
+        if(src[i] != pad_num){
+            return srclen;
+        }
+    }
+    return srclen - pad_num;
 }
 
-- 
2.43.0


From 66645f5e26989d93fccb90dfae92ca238891d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 03/39] fix: CBC decryption refuses a ciphertext that is not
 whole blocks (over-read); lengths as size_t

---
 src/modes/cbc128.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index 621df58..c754751 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,7 +4,8 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     unsigned char *pad_in = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen) + 1);
     unsigned char *afin = pad_in;
     if(pad_in==NULL){
@@ -52,9 +53,12 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
+    }else if(inlen%16!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_ERR_INBLOCK_SIZE_WARN);
     }else{
         len=inlen;
     }
-- 
2.43.0


From 9791f7748951f89b876e93c8f8b4dc75fb2ced2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 04/39] fix: AES decryption used the encryption key schedule;
 short AES keys were over-read

---
 include/wbcrypto/aes.h | 1 +
 src/aes/aes.c          | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..bbefd17 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -10,6 +10,7 @@ extern "C" {
 
     struct aes_context {
         AES_KEY aes_key;
+        AES_KEY aes_dec_key;
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..77a2ada 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,10 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +30,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From cf4bac7402b44c2522dfd2f1c4a016fd0e4c0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 05/39] fix: setting a GCM IV must also reset the AAD length of
 the previous message

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..dc65f3c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..ffa6a9d 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..a9510a8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
-- 
2.43.0


From 6d24e12ff9b272b527acbb922abf1da1ce9d2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:11 +0000
Subject: [PATCH 06/39] fix: white-box GCM reports errors with 0 like the rest
 of the API; GCM data lengths as size_t

---
 src/modes/gcm128.c                | 6 ++++--
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 8 ++++----
 src/wbaes/wbaes_wbgcm_mask_mode.c | 8 ++++----
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dc65f3c..60944de 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -163,7 +163,8 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -212,7 +213,8 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index ffa6a9d..9c3f4b3 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -156,9 +156,9 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -206,9 +206,9 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index a9510a8..624b79e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -169,9 +169,9 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -224,9 +224,9 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
-- 
2.43.0


From 25d1cd7cf34c475ee1811ee8fbf1634f3e3e46cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 07/39] fix: GCM tag requests beyond 16 bytes read past the
 context

---
 src/modes/gcm128.c                | 3 +++
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 60944de..dd6ffef 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -268,6 +268,9 @@ int WBCRYPTO_gcm_finish(WBCRYPTO_gcm_context *ctx, unsigned char *tag, size_t le
     uint64_t orig_add_len = ctx->add_len * 8;
     size_t i;
 
+    if( len > 16 ) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_finish",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
     if( len != 0 ) memcpy( tag, ctx->base_ectr, len );
 
     if( orig_len || orig_add_len ) {
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 9c3f4b3..ae8f364 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -262,6 +262,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
     WBCRYPTO_wbaes_wbgcm_ee_context *key = ctx->key;
     unsigned char buff_change[16];     // counter-mode cipher output for XORing
 
+    if (len > 16) return 0;
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
     if (orig_len || orig_add_len) {
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 624b79e..fa6025e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -285,6 +285,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
     WBCRYPTO_wbaes_wbgcm_mask_context *key = ctx->key;
     unsigned char buff_change[16];     // counter-mode cipher output for XORing
 
+    if (len > 16) return 0;
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
     if (orig_len || orig_add_len) {
-- 
2.43.0


From a0ef1d93951714193548ecf742da80816ecc3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:50 +0000
Subject: [PATCH 08/39] fix: white-box GCM tags: mask decryption disagreed with
 encryption, empty messages kept the encoded mask

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   |  2 +-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index ae8f364..b10abc7 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -265,7 +265,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
     if (len > 16) return 0;
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {   // also for an empty message: the mask of base_ectr has to be taken off
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index fa6025e..7d9a547 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -288,7 +288,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
     if (len > 16) return 0;
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {   // also for an empty message: the mask of base_ectr has to be taken off
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
@@ -300,9 +300,16 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
         wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
         for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+            buff_change[i] = ctx->buf[i];
+            if (!key->encMode) { //dec mode: GBOX_TypeI unmasks its input
+                buff_change[i] = MatMulNumM8(key->L1[i], buff_change[i]);
+            }
+            buff_change[i] = key->GBOX_TypeI[i][buff_change[i]];
 //            tag[i] ^= ctx->buf[i];
             tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+            if (!key->encMode) { //dec mode: mask the tag as the encryption side does
+                tag[i] = MatMulNumM8(key->L1[i], tag[i]);
+            }
         }
     }
     return 1;
-- 
2.43.0


From b70a8146d3c34c6f5288071ecb65b54c2123e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:46 +0000
Subject: [PATCH 09/39] fix: parallel GCM raced on a shared index, hashed the
 plaintext when decrypting, mishandled empty data and leaked

---
 src/modes/gcm_parallel.c | 44 ++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..e8822ff 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -16,7 +17,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
@@ -37,6 +38,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
+            size_t j; // private to each thread
             size_t use_len = 16;
             if (i == (len_s - 1))
             {
@@ -63,6 +65,9 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
         gcm_mult(ctx, ctx->buf, ctx->buf);
     }
+    for (i = 0; i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
@@ -71,7 +76,8 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -83,7 +89,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
@@ -95,6 +101,20 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel (the tag covers the ciphertext, which in-place decryption overwrites)
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
@@ -104,6 +124,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
+            size_t j; // private to each thread
             size_t use_len = 16;
             if (i == (len_s - 1))
             {
@@ -116,20 +137,9 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             }
         }
     }
-    //unable to parallel
     for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
+        free(y_arr[i]);
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From 3370be144fc464208d5424c4e6958d28e05e5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:30 +0000
Subject: [PATCH 10/39] fix: file decryption never checked the tag; file modes
 ignored I/O errors, closed NULL files and leaked the input file

---
 src/modes/gcmfile.c               | 94 +++++++++++++++++++++----------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 88 +++++++++++++++++++----------
 src/wbaes/wbaes_wbgcm_mask_file.c | 88 +++++++++++++++++++----------
 3 files changed, 179 insertions(+), 91 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..0d18bbe 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -5,8 +5,12 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     if (ctx == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_init", WBCRYPTO_ERR_ALLOC_FAILED);
     }
-    memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
+    memset(ctx->tag, 0, WBCRYPTO_GCM_FILE_TAG_LEN);
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL) {
+        free(ctx);
+        return NULL;
+    }
     return ctx;
 cleanup:
     return NULL;
@@ -34,12 +38,15 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    int len_outfpath, block_size;
+    long file_size, read_size = 0;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        return 0;
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -58,51 +65,68 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != (size_t) block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    // The whole file must have been read
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != (size_t) block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size -= block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    // The whole cipher must have been copied
+    if (ferror(tmpfp) || read_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL)
+        fclose(tmpfp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     remove(tmp_file_path);
     free(tmp_file_path);
     return ret;
@@ -110,30 +134,29 @@ cleanup:
 
 int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    int block_size;
+    size_t file_size = 0, read_size = 0;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
+    unsigned char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(flag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    memcpy(&file_size, size_buf, sizeof(size_t));
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -144,30 +167,39 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != (size_t) block_size) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
+        }
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(flag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..f9c53c0 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,13 +2,16 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, block_size;
+    long file_size, read_size = 0;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        return 0;
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -27,51 +30,68 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != (size_t) block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    // The whole file must have been read
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != (size_t) block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size -= block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    // The whole cipher must have been copied
+    if (ferror(tmpfp) || read_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL)
+        fclose(tmpfp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     remove(tmp_file_path);
     free(tmp_file_path);
     return ret;
@@ -79,31 +99,30 @@ cleanup:
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    int block_size;
+    size_t file_size = 0, read_size = 0;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
+    unsigned char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(flag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    memcpy(&file_size, size_buf, sizeof(size_t));
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,29 +133,38 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != (size_t) block_size) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
+        }
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(flag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..5981ffb 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,13 +2,16 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, block_size;
+    long file_size, read_size = 0;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        return 0;
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -27,51 +30,68 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != (size_t) block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    // The whole file must have been read
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != (size_t) block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size -= block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    // The whole cipher must have been copied
+    if (ferror(tmpfp) || read_size != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL)
+        fclose(tmpfp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     remove(tmp_file_path);
     free(tmp_file_path);
     return ret;
@@ -79,31 +99,30 @@ cleanup:
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    int block_size;
+    size_t file_size = 0, read_size = 0;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
+    unsigned char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(flag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    memcpy(&file_size, size_buf, sizeof(size_t));
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,29 +133,38 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != (size_t) block_size) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
+        }
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(flag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 470066e69217d18f6a5c3e8f6ddce3ec200d55cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:39 +0000
Subject: [PATCH 11/39] fix: key store ignored short reads and writes and
 closed a NULL file

---
 src/utils/keystore.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..e673a70 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -2,28 +2,34 @@
 
 int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(fread(ctx , 1, ctx_len, rkey)!=ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL)
+        fclose(rkey);
     return ret;
 }
 
 int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(fwrite( ctx, 1, ctx_len, wkey)!=ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0)
+        ret=0;
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 2bf8f2169a8520f364fef3bda42ea4ca76099eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:47 +0000
Subject: [PATCH 12/39] fix: white-box SM4 with adjacent dummy rounds used the
 wrong round and read past the arrays; dummy rounds left tables uninitialised

---
 src/wbsm4/wbsm4_gen.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..cb0d165 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    int point; // the SM4 round that table round i implements, dummy rounds implement none
+    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,12 +226,15 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From e72916b1f50e223a899acf714d4f55e25b8ff348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:24 +0000
Subject: [PATCH 13/39] fix: white-box SM4 key import overflowed contexts of
 other dummy counts, byte export shared raw pointers, file errors ignored

---
 src/wbsm4/wbsm4_exkey.c | 107 +++++++++++++++++++++++++++++++++-------
 1 file changed, 90 insertions(+), 17 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..2a85442 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -1,15 +1,55 @@
 #include "wbsm4_local.h"
 
+// MM, CC, DD and Table of one round
+#define WBSM4_ROUND_BYTES ((3*4 + 3*4)*256*sizeof(uint32_t))
+
+// whether size bytes are exactly the tables of a context with that many rounds
+static int wbsm4_rounds_fit(int rounds, long size){
+    return rounds>=32 && (rounds-32)%4==0
+        && size==(long)(2*4*4*256*sizeof(uint32_t)) + (long)rounds*(long)WBSM4_ROUND_BYTES;
+}
+
+// the imported tables go into dst, the previous ones of dst are left to be freed with ctx
+static void wbsm4_swap(WBCRYPTO_wbsm4_context *dst, WBCRYPTO_wbsm4_context *ctx){
+    WBCRYPTO_wbsm4_context tmp = *dst;
+    *dst = *ctx;
+    *ctx = tmp;
+}
+
+// copy all tables of the context to (out!=0) or from (out==0) buf
+static void wbsm4_copy_tables(WBCRYPTO_wbsm4_context *ctx, uint8_t *buf, int out){
+    int i,j,k;
+#define WBSM4_COPY(tab, len) do{ \
+        if(out) memcpy(buf, tab, len); else memcpy(tab, buf, len); \
+        buf += len; \
+    }while(0)
+    WBSM4_COPY(ctx->SE, sizeof(ctx->SE));
+    WBSM4_COPY(ctx->FE, sizeof(ctx->FE));
+    for (i = 0;  i< ctx->rounds; i++) {
+        for (j = 0;  j<3 ; j++) {
+            for (k = 0;  k<4 ; k++) {
+                WBSM4_COPY(ctx->MM[i][j][k], 256*sizeof(uint32_t));
+            }
+        }
+        for (j = 0;  j<4 ; j++) {
+            WBSM4_COPY(ctx->CC[i][j], 256*sizeof(uint32_t));
+            WBSM4_COPY(ctx->DD[i][j], 256*sizeof(uint32_t));
+            WBSM4_COPY(ctx->Table[i][j], 256*sizeof(uint32_t));
+        }
+    }
+#undef WBSM4_COPY
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
     int i,j,k,l;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
     }
-    fputs("DummyRound-WBSM4", wkey);
-    if(!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
+    if(fputs("DummyRound-WBSM4", wkey)==EOF
+        ||!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
         ||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
     }
@@ -43,13 +83,16 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0)
+        ret=0;
     return ret;
 }
 
-int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
+int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *dst, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
+    WBCRYPTO_wbsm4_context *ctx = NULL;
+    int rounds, encmode;
     int i,j,k,l;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
@@ -57,14 +100,20 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     char algname[17];
     memset(algname, 0, sizeof(algname));
-    fgets(algname, 17, rkey);
-    if(strcmp(algname, "DummyRound-WBSM4")!=0){
+    if(fgets(algname, 17, rkey)==NULL || strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
-       ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!fread(&encmode, sizeof(int), 1, rkey)
+       ||fseek(rkey, 0, SEEK_END)!=0
+       ||!wbsm4_rounds_fit(rounds, ftell(rkey) - (long)(16 + 2*sizeof(int)))
+       ||fseek(rkey, (long)(16 + 2*sizeof(int)), SEEK_SET)!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
+    // the tables are sized by the file, whatever the context was created with
+    if((ctx = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0;  i< ctx->rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
@@ -93,9 +142,13 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
             }
         }
     }
+    wbsm4_swap(dst, ctx);
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL)
+        fclose(rkey);
+    if(ctx!=NULL)
+        WBCRYPTO_wbsm4_context_free(ctx);
     return ret;
 }
 
@@ -103,27 +156,47 @@ int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
     int ks_len = 0;
 
-    ks_len = sizeof(struct wbsm4_context);
+    ks_len = 2*sizeof(int) + 2*sizeof(ctx->SE) + ctx->rounds*WBSM4_ROUND_BYTES;
     ks_len += sizeof(uint32_t);
     *kstream = malloc(ks_len);
+    if(*kstream==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
-    memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    uint8_t* ds  = (uint8_t*)*kstream + sizeof(uint32_t);
+    memcpy(ds, &ctx->rounds, sizeof(int));
+    memcpy(ds + sizeof(int), &ctx->encmode, sizeof(int));
+    wbsm4_copy_tables((WBCRYPTO_wbsm4_context *)ctx, ds + 2*sizeof(int), 1);
 
     ret=1;
 cleanup:
     return ret;
 }
 
-int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
+int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *dst, const char *kstream){
     int ret=0;
+    uint32_t ks_len;
+    int rounds, encmode;
+    WBCRYPTO_wbsm4_context *ctx = NULL;
 
-    const uint8_t  *ptr = kstream;
+    const uint8_t  *ptr = (const uint8_t*)kstream;
+    memcpy(&ks_len, ptr, sizeof(uint32_t));
     ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    memcpy(&rounds, ptr, sizeof(int));
+    memcpy(&encmode, ptr + sizeof(int), sizeof(int));
+    if(!wbsm4_rounds_fit(rounds, (long)ks_len - (long)(sizeof(uint32_t) + 2*sizeof(int)))){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    if((ctx = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    wbsm4_copy_tables(ctx, (uint8_t*)ptr + 2*sizeof(int), 0);
+    wbsm4_swap(dst, ctx);
 
     ret=1;
 cleanup:
+    if(ctx!=NULL)
+        WBCRYPTO_wbsm4_context_free(ctx);
     return ret;
 }
 
-- 
2.43.0


From 5076ef5582d1ec29ecdea42f5bb733b090a69d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:40 +0000
Subject: [PATCH 14/39] fix: free functions only wiped contexts and never
 released them; table generators leaked the SM4 key schedule

---
 src/aes/aes.c                     |  4 ++++
 src/modes/gcm128.c                |  4 ++++
 src/modes/gcmfile.c               |  5 +++++
 src/se_wbsm4/se_wbsm4.c           |  5 +++++
 src/sm4/sm4.c                     |  4 ++++
 src/wbaes/wbaes.c                 |  4 ++++
 src/wbaes/wbaes_wbgcm_ee_mode.c   |  2 +-
 src/wbaes/wbaes_wbgcm_mask_mode.c |  2 +-
 src/wbsm4/wbsm4.c                 | 26 ++++++++++++++++++++++++++
 src/wbsm4/wbsm4_gen.c             |  1 +
 10 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 77a2ada..9c699fd 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -13,7 +13,11 @@ cleanup:
 }
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
+    if(ctx==NULL){
+        return;
+    }
     memset(ctx,0,sizeof(struct aes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dd6ffef..ced37c6 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -291,5 +291,9 @@ cleanup:
 }
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
+    if(ctx==NULL){
+        return;
+    }
     memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    free(ctx);
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 0d18bbe..2ad142d 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -204,6 +204,11 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
+    if (ctx == NULL) {
+        return;
+    }
+    WBCRYPTO_gcm_free(ctx->gcm);
     memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    free(ctx);
 }
 
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 382a84c..430471c 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -14,7 +14,11 @@ cleanup:
 }
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
+    if(ctx==NULL){
+        return;
+    }
     memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *key, size_t keylen) {
@@ -87,6 +91,7 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
+    WBCRYPTO_sm4_context_free(sm4_key);
     return 1;
 }
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 7cd29b7..5a88d92 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -140,7 +140,11 @@ cleanup:
 }
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
+    if(ctx==NULL){
+        return;
+    }
     memset(ctx,0,sizeof(struct sm4_context));
+    free(ctx);
 }
 
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..58119dc 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -14,7 +14,11 @@ cleanup:
 }
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
+    if(ctx==NULL){
+        return;
+    }
     memset(ctx,0,sizeof(struct wbaes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index b10abc7..31b794d 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -286,8 +286,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 }
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
     if (ctx != NULL) {
+        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 7d9a547..e5191c8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -316,8 +316,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
     if (ctx != NULL) {
+        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 56d390a..198ef4a 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -45,7 +45,33 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
 }
 
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
+    int i,j,k;
+    if(ctx==NULL){
+        return;
+    }
+    for(i=0; i< ctx->rounds; i++) {
+        for (j = 0; j < 3; j++) {
+            for (k = 0; k < 4; k++) {
+                free(ctx->MM[i][j][k]);
+            }
+            free(ctx->MM[i][j]);
+        }
+        for (j = 0; j < 4; j++) {
+            free(ctx->CC[i][j]);
+            free(ctx->DD[i][j]);
+            free(ctx->Table[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
     memset(ctx,0,sizeof(struct wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbsm4_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_wbsm4_context *ctx){
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index cb0d165..d466385 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -273,6 +273,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
 
     ret=1;
 cleanup:
+    WBCRYPTO_sm4_context_free(sm4_key);
     free(dummy_array);
     return ret;
 }
-- 
2.43.0


From 1b701195e630d9452c91ca1b4d8479a13be4c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:45 +0000
Subject: [PATCH 15/39] fix: one-shot SM3 returned no value

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From 52aa7d8b0cf6fe63dadb5e22661012b7285377ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:45 +0000
Subject: [PATCH 16/39] fix: white-box AES ignored the key length and read past
 short keys

---
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 58119dc..0f2eeea 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -24,7 +24,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..8adfdec 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..4d2563c 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From 97a42ce50a28226f597270d054749d7ff7ffa9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:47 +0000
Subject: [PATCH 17/39] fix: FPE modes refuse strings with characters outside
 the radix (heap overflow) or too short (assertion)

---
 src/fpe/ff1.c      |  6 ++++++
 src/fpe/ff1_cmac.c |  6 ++++++
 src/fpe/ff3.c      |  6 ++++++
 src/fpe/ff3_gmac.c |  6 ++++++
 src/fpe/fpe_locl.c | 17 +++++++++++++++++
 src/fpe/fpe_locl.h |  3 +++
 6 files changed, 44 insertions(+)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..e9d18cb 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 2)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -155,6 +158,9 @@ cleanup:
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 2)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..c3495a3 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -29,6 +29,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 2)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -201,6 +204,9 @@ cleanup:
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 2)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..3d45d01 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 1)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -84,6 +87,9 @@ cleanup:
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 1)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..3225b33 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -81,6 +81,9 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 1)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -178,6 +181,9 @@ cleanup:
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 1)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index 74b8857..b05e171 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -36,6 +36,23 @@ void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *
     */
 }
 
+int check_chars(const char *str, unsigned int radix, unsigned int minlen) {
+    size_t len = strlen(str);
+
+    for (size_t i = 0; i < len; ++i) {
+        unsigned int digit;
+        if (str[i] >= '0' && str[i] <= '9')
+            digit = str[i] - '0';
+        else if (str[i] >= 'a' && str[i] <= 'z')
+            digit = str[i] - 'a' + 10;
+        else
+            return 0;
+        if (digit >= radix)
+            return 0;
+    }
+    return len >= minlen;
+}
+
 void map_chars(const unsigned char str[], unsigned int result[]) {
     int len = strlen(str);
 
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index 050dd1b..00125d8 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -18,6 +18,9 @@
 
 void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
+// whether str is at least minlen characters long, all of them digits of the radix
+int check_chars(const char *str, unsigned int radix, unsigned int minlen);
+
 void map_chars(const unsigned char str[], unsigned int result[]);
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
-- 
2.43.0


From 8953172bc73fa5548a69413abf9954405e9c9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:49 +0000
Subject: [PATCH 18/39] fix: FPE contexts over-read short tweaks, dereferenced
 a NULL tweak and leaked on an unsupported radix

---
 src/fpe/init.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..a73fe47 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -9,6 +9,7 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
         goto cleanup;
     }
     if (radix < 2 || radix > 36) {
+        free(ctx);
         goto cleanup;
     }
 
@@ -16,8 +17,15 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    // FF3 reads 8 and FF3-GMAC 16 tweak bytes, shorter tweaks count as zero-extended
+    ctx->tweak = (unsigned char *) calloc(1, twklen < 16 ? 16 : twklen);
+    if (!ctx->tweak) {
+        free(ctx);
+        goto cleanup;
+    }
+    if (twklen > 0) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
     return NULL;
@@ -38,10 +46,11 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
     if (!ctx) {
         goto cleanup;
     }
-    if (radix < 2 || radix > 36) {
+    ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
+        free(ctx);
         goto cleanup;
     }
-    ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
     return ctx;
 cleanup:
     return NULL;
-- 
2.43.0


From e37567f7bdf67bd60e31091ba5364e8cd2532188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 19/39] fix: FF1-CMAC tag depended on uninitialised memory and
 on one byte per round

---
 src/fpe/ff1_cmac.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index c3495a3..e342647 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -123,6 +123,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -135,7 +136,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         //cbc-mac
         uint8_t M_last[16];
         for (int j = 0; j < 16; j++) {
-            M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
+            M_last[j] = K1[j] ^ R[j] ^ cn_1[j];
         }
         uint8_t M_mac[16];
         (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
@@ -297,6 +298,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -309,7 +311,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         //cbc-mac
         uint8_t M_last[16];
         for (int j = 0; j < 16; j++) {
-            M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
+            M_last[j] = K1[j] ^ R[j] ^ cn_1[j];
         }
         uint8_t M_mac[16];
         (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
-- 
2.43.0


From 3cad012f30ede2909a3f27e47f8c95c855535483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:08 +0000
Subject: [PATCH 20/39] fix: FPE application layer overflowed its scratch
 buffers, ignored failures and accepted unsupported text or samples

---
 src/fpe_app/cn_utf8.c   | 36 ++++++++++++++++++++++++++++++++++--
 src/fpe_app/idcard.c    | 11 ++++++++---
 src/fpe_app/phone.c     |  9 +++++++--
 src/fpe_app/utf8_util.c |  2 +-
 4 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..2e01e42 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -6,10 +6,40 @@
 #include <ctype.h>
 #include "utf8_util.h"
 
+// whether the string is len three-byte characters that four duodecimal digits can express
+static int cn_supported(char *cn, int len) {
+    int i;
+    if (strlen(cn) != (size_t) len * 3) {
+        return 0;
+    }
+    for (i = 0; i < len; i++, cn += 3) {
+        int uc_int = utf8Uint32ToInt(utf8CharToUint32(cn));
+        if ((cn[0] & 0xf0) != 0xe0 || (cn[1] & 0xc0) != 0x80 || (cn[2] & 0xc0) != 0x80
+            || uc_int < 0 || uc_int > 20735) {
+            return 0;
+        }
+    }
+    return 1;
+}
+
+// whether a non-empty sample has one '*' or one three-byte character for each of the len characters
+static int cn_sample_fits(char *sample, int len) {
+    size_t i = 0, sample_len = strlen(sample);
+    int count = 0;
+    while (i < sample_len) {
+        i += (sample[i] == '*') ? 1 : 3;
+        ++count;
+    }
+    return sample_len == 0 || (i == sample_len && count == len);
+}
+
 int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *after_cn, fpe_block128_f block) {
     int ret = 0;
     int len = strlen(cn) / 3;
     int i, tweak_len = 0;
+    if (!cn_supported(cn, len) || !cn_sample_fits(sample, len)) {
+        return 0;
+    }
 
     for (i = 0; i < strlen(sample); i++) {
         if (sample[i] == '*') {
@@ -21,7 +51,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -62,7 +92,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL || (*block)(fpe_ctx, input, ans) == 0) {
+        goto cleanup;
+    }
 
     char *ori_add = cn;
     char *ans_p = ans;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..24b43d9 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,7 +10,10 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    if (strcmp(sample, "") != 0 && strlen(sample) != strlen(idcard)) {
+        return 0;
+    }
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
     if (strcmp(sample, "") != 0) {
@@ -22,7 +25,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -45,7 +48,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL || (*block)(fpe_ctx, input, ans) == 0) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..0384798 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -6,6 +6,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     int ret = 0;
     int len = strlen(phone);
     int i, j, k, tweak_len = 0;
+    if (strcmp(sample, "") != 0 && strlen(sample) != strlen(phone)) {
+        return 0;
+    }
 
     if (strcmp(sample, "") != 0) {
         for (i = 0; i < len; i++) {
@@ -18,7 +21,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -39,7 +42,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL || (*block)(fpe_ctx, input, ans) == 0) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
diff --git a/src/fpe_app/utf8_util.c b/src/fpe_app/utf8_util.c
index eb404ac..a639e98 100644
--- a/src/fpe_app/utf8_util.c
+++ b/src/fpe_app/utf8_util.c
@@ -70,7 +70,7 @@ void utf8IntToCharDuodecimal(int dec, char result[]) {
         num /= 12;
         i++;
     }
-    while (i <= 4) {
+    while (i < 4) {
         result[i++] = '0';
     }
 }
-- 
2.43.0


From 24ecdaf82b9c34d6874569b6bf7e82af2daf0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:11 +0000
Subject: [PATCH 21/39] fix: FPE application keys shorter than 16 bytes were
 filled with uninitialised memory

---
 src/fpe_app/init.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..bf40ce6 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,9 +5,8 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
         WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
-- 
2.43.0


From 231cfe567b34f16413c8834a3df74753aade7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:15 +0000
Subject: [PATCH 22/39] fix: UDF wrote messages into the one-byte error flag,
 crashed on NULL arguments, returned unmasked text on failure and leaked

---
 udf/mysql8.cpp | 75 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 70ed153..c8a466e 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -55,21 +56,42 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
+    // error points to a single byte, and the arguments need not be NUL-terminated
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = (char *) plain_str.c_str();
+    const char *mode = mode_str.c_str();
     char *sample;
-    int plain_len = args->lengths[0];
+    unsigned long plain_len = args->lengths[0];
+    int ok = 0;
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
-        if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
-            char msg[200];
-            sprintf(msg, "sample should be as long as plain, plain: %s, sample: %s", plain, sample);
-            strcpy(error, msg);
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = (char *) sample_str.c_str();
+        // sample should be as long as plain
+        if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0 && strcmp(mode, "name") != 0) {
+            *error = 1;
             return NULL;
         }
     }
 
+    if (strlen(plain) != plain_len) {
+        *error = 1;
+        return NULL;
+    }
+    char *masked = (char *) realloc(initid->ptr, plain_len + 1);
+    if (masked == NULL) {
+        *error = 1;
+        return NULL;
+    }
+    initid->ptr = masked;
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
@@ -77,41 +99,38 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
 
     if (strcmp(mode, "phone") == 0) {
-        if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+        if (plain_len != 11) { // the length of phone should be 11
+            ok = 0;
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
-        if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+        if (plain_len != 18) { // the length of id-card should be 18
+            ok = 0;
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
-    } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+    } // requires optional mode: phone or idcard or name or address
+    WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) app_ctx.cipher_ctx);
+    if (!ok) {
+        *error = 1;
         return NULL;
     }
 
     *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
 
     // char ret[1024];
     // sprintf(ret, "%s", result);
 
-    return result;
+    return initid->ptr; // result only holds 255 bytes
 }
\ No newline at end of file
-- 
2.43.0


From 8a2cea2cd9f584890a832a73b28749cafa05c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:57 +0000
Subject: [PATCH 23/39] fix: GCM IVs of 512 MB or more lost the upper half of
 their bit length

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index ced37c6..e32b1e6 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -118,6 +118,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset( work_buf, 0x00, 16 );               // clear the working buffer
+        PUT_UINT32_BE( ((uint64_t)len * 8) >> 32, work_buf, 8 );  // 64-bit IV bit length
         PUT_UINT32_BE( len * 8, work_buf, 12 );  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 31b794d..7a04922 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -117,6 +117,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE(((uint64_t)len * 8) >> 32, work_buf, 8);  // 64-bit IV bit length
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index e5191c8..ac6fd2f 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -126,6 +126,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE(((uint64_t)len * 8) >> 32, work_buf, 8);  // 64-bit IV bit length
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
-- 
2.43.0


From a802ca7d09f6a1543fa5e67609051ead4a01f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:18 +0000
Subject: [PATCH 24/39] fix: FF1 without a tweak aborted on an assertion that
 wrapped below zero

---
 src/fpe/ff1.c      | 4 ++--
 src/fpe/ff1_cmac.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index e9d18cb..41c15de 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -66,7 +66,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad + 1 <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
@@ -220,7 +220,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad + 1 <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index e342647..d98f7e8 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -92,7 +92,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad + 1 <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
@@ -267,7 +267,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad + 1 <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-- 
2.43.0


From 606d3a1e9bc112ae1d82ccab1320cb8106993a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:39 +0000
Subject: [PATCH 25/39] fix: message padding computed lengths of 2 GB and more
 in int

---
 src/utils/padding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 5bfc4f8..66bcbd9 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -42,7 +42,7 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    size_t i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
@@ -64,7 +64,7 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
-- 
2.43.0


From a73990764214f947703462c5b8d4a2464c68861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:10 +0000
Subject: [PATCH 26/39] fix: file encryption no longer overwrites or deletes an
 existing <output>.tmp (which may be its own input)

---
 src/modes/gcmfile.c               | 17 +++++++++++------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 17 +++++++++++------
 src/wbaes/wbaes_wbgcm_mask_file.c | 17 +++++++++++------
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 2ad142d..de9a1e7 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <wbcrypto/modes.h>
 
 WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
@@ -44,15 +45,18 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    char *tmp_file_path = (char *) malloc((len_outfpath + 6) * sizeof(char));
     if (tmp_file_path == NULL)
         return 0;
     memcpy(tmp_file_path, outfpath, len_outfpath);
-    memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
+    memcpy(tmp_file_path + len_outfpath, ".tmp\0", 6);
 
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
+    // never take over an existing file (it may even be the input)
+    for (char c = 'a'; (tmpfp = fopen(tmp_file_path, "wb+x")) == NULL && errno == EEXIST && c <= 'z'; c++)
+        tmp_file_path[len_outfpath + 4] = c;
+    if (tmpfp == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((outfp = fopen(outfpath, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
@@ -123,11 +127,12 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 cleanup:
     if (infp != NULL)
         fclose(infp);
-    if (tmpfp != NULL)
-        fclose(tmpfp);
     if (outfp != NULL && fclose(outfp) != 0)
         ret = 0;
-    remove(tmp_file_path);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index f9c53c0..5b23ecf 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "wbcrypto/wbaes_wbgcm_ee.h"
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
@@ -9,15 +10,18 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    char *tmp_file_path = (char *) malloc((len_outfpath + 6) * sizeof(char));
     if (tmp_file_path == NULL)
         return 0;
     memcpy(tmp_file_path, outfpath, len_outfpath);
-    memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
+    memcpy(tmp_file_path + len_outfpath, ".tmp\0", 6);
 
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
+    // never take over an existing file (it may even be the input)
+    for (char c = 'a'; (tmpfp = fopen(tmp_file_path, "wb+x")) == NULL && errno == EEXIST && c <= 'z'; c++)
+        tmp_file_path[len_outfpath + 4] = c;
+    if (tmpfp == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((outfp = fopen(outfpath, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
@@ -88,11 +92,12 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 cleanup:
     if (infp != NULL)
         fclose(infp);
-    if (tmpfp != NULL)
-        fclose(tmpfp);
     if (outfp != NULL && fclose(outfp) != 0)
         ret = 0;
-    remove(tmp_file_path);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 5981ffb..8617dba 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "wbcrypto/wbaes_wbgcm_mask.h"
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
@@ -9,15 +10,18 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    char *tmp_file_path = (char *) malloc((len_outfpath + 6) * sizeof(char));
     if (tmp_file_path == NULL)
         return 0;
     memcpy(tmp_file_path, outfpath, len_outfpath);
-    memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
+    memcpy(tmp_file_path + len_outfpath, ".tmp\0", 6);
 
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
+    // never take over an existing file (it may even be the input)
+    for (char c = 'a'; (tmpfp = fopen(tmp_file_path, "wb+x")) == NULL && errno == EEXIST && c <= 'z'; c++)
+        tmp_file_path[len_outfpath + 4] = c;
+    if (tmpfp == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((outfp = fopen(outfpath, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
@@ -88,11 +92,12 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 cleanup:
     if (infp != NULL)
         fclose(infp);
-    if (tmpfp != NULL)
-        fclose(tmpfp);
     if (outfp != NULL && fclose(outfp) != 0)
         ret = 0;
-    remove(tmp_file_path);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
-- 
2.43.0


From c0e5408691cf65506713d2fcf67dd26787224ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:56 +0000
Subject: [PATCH 27/39] fix: FF1/FF3 and their MAC variants report an error of
 the block cipher instead of returning wrong output as success

---
 src/fpe/ff1.c      | 12 ++++++------
 src/fpe/ff1_cmac.c | 28 ++++++++++++++++------------
 src/fpe/ff3.c      |  4 ++--
 src/fpe/ff3_gmac.c | 11 ++++++-----
 4 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 41c15de..1630298 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -87,14 +87,14 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -117,7 +117,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -241,14 +241,14 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -270,7 +270,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index d98f7e8..2126f9f 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -12,9 +12,10 @@ void left_shift_buffer(uint8_t *input, uint8_t *output, uint8_t length) {
     }
 }
 
-void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+int generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+    int ret = 0;
     char msg[16] = {0x00};
-    (*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx);
+    WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx));
 
     left_shift_buffer(K2, K1, 16);
     if (K2[0] & 0x80) {
@@ -25,6 +26,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
     if (K1[0] & 0x80) {
         K2[15] = K2[15] ^ 0x87;
     }
+    ret = 1;
+cleanup:
+    return ret;
 }
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
@@ -96,13 +100,13 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     unsigned char *S = (unsigned char *) malloc(Slen);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -118,7 +122,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -127,7 +131,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -139,7 +143,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[j] ^ cn_1[j];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -163,7 +167,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -271,13 +275,13 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     unsigned char *S = (unsigned char *) malloc(Slen);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
@@ -293,7 +297,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -302,7 +306,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -314,7 +318,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[j] ^ cn_1[j];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -337,7 +341,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3d45d01..a36cc6e 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -51,7 +51,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
@@ -137,7 +137,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 3225b33..e1fadc3 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -109,7 +109,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16], M[16];
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
@@ -137,7 +137,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
@@ -204,15 +204,16 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
+    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16]={0}, M[16]={0};
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -237,7 +238,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
-- 
2.43.0


From 9c1922f5c62d6e86ae9fab911275a5a138b40f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:56 +0000
Subject: [PATCH 28/39] fix: parallel GCM reports an error of the block cipher

---
 src/modes/gcm_parallel.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index e8822ff..e700a76 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -12,6 +12,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         len=inlen;
     }
     size_t i, j; // local loop iterator
+    int failed = 0;  // set when the block cipher reports an error
     block128_f block = ctx->block;
     void *key = ctx->key;
 
@@ -44,7 +45,12 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
@@ -52,7 +58,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
     }
     //unable to parallel
-    for (i = 0; i < len_s; i++)
+    for (i = 0; i < len_s && !failed; i++)
     {
         size_t use_len = 16;
         if (i == (len_s - 1))
@@ -68,7 +74,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     for (i = 0; i < len_s; i++)
         free(y_arr[i]);
     free(y_arr);
-    ret=1;
+    ret = !failed;
 cleanup:
     return ret;
 }
@@ -84,6 +90,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         len=inlen;
     }
     size_t i, j; // local loop iterator
+    int failed = 0;  // set when the block cipher reports an error
     block128_f block = ctx->block;
     void *key = ctx->key;
 
@@ -130,7 +137,12 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
@@ -140,7 +152,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     for (i = 0; i < len_s; i++)
         free(y_arr[i]);
     free(y_arr);
-    ret=1;
+    ret = !failed;
 cleanup:
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 33e1e8dd8e86d8b44981b9dddd24dfa4c377afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:56 +0000
Subject: [PATCH 29/39] fix: gcm_init releases its context when the block
 cipher fails

---
 src/modes/gcm128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index e32b1e6..224bbe8 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -91,6 +91,7 @@ WBCRYPTO_gcm_context *WBCRYPTO_gcm_init(void *key, block128_f block)
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From acbe841fe4d0df43115e8aed4def74534a1e84d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:01 +0000
Subject: [PATCH 30/39] fix: MySQL 5 UDF wrote messages into the one-byte error
 flag, crashed on NULL arguments, overflowed the result buffer, returned
 unmasked text on failure and leaked

---
 udf/mysql5.cpp | 75 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index ce4bbf7..a04bb38 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -40,7 +41,7 @@ my_bool fpe_init(UDF_INIT *initid, UDF_ARGS *args, char *message) {
     }
 
     initid->max_length = args->lengths[0];
-    initid->maybe_null = (my_bool) (*args->maybe_null);
+    initid->maybe_null = 1; // any argument can be NULL
     initid->ptr = (char *) malloc(initid->max_length + 1);
     if (initid->ptr == NULL) {
         strcpy(message, "could't allocate memory");
@@ -55,15 +56,42 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
+    // error points to a single byte, and the arguments need not be NUL-terminated
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = (char *) plain_str.c_str();
+    const char *mode = mode_str.c_str();
     char *sample;
-    int plain_len = args->lengths[0];
+    unsigned long plain_len = args->lengths[0];
+    int ok = 0;
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = (char *) sample_str.c_str();
+        // sample should be as long as plain
+        if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0 && strcmp(mode, "name") != 0) {
+            *error = 1;
+            return NULL;
+        }
     }
 
+    if (strlen(plain) != plain_len) {
+        *error = 1;
+        return NULL;
+    }
+    char *masked = (char *) realloc(initid->ptr, plain_len + 1);
+    if (masked == NULL) {
+        *error = 1;
+        return NULL;
+    }
+    initid->ptr = masked;
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
@@ -71,41 +99,38 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
 
     if (strcmp(mode, "phone") == 0) {
-        if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+        if (plain_len != 11) { // the length of phone should be 11
+            ok = 0;
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
-        if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
-            return NULL;
-        }
-        if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+        if (plain_len != 18) { // the length of id-card should be 18
+            ok = 0;
+        } else if (args->arg_count == 3) {
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
-    } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+    } // requires optional mode: phone or idcard or name or address
+    WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) app_ctx.cipher_ctx);
+    if (!ok) {
+        *error = 1;
         return NULL;
     }
 
     *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
 
     // char ret[1024];
     // sprintf(ret, "%s", result);
 
-    return result;
+    return initid->ptr; // result only holds 255 bytes
 }
\ No newline at end of file
-- 
2.43.0


From 8fcb4032b63f3dceb418ff70c26520529ae1c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 31/39] fix: format-preserving encryption no longer keeps the
 whole string on the stack (a long string overflowed it)

---
 src/fpe/ff1.c         | 22 ++++++++++++++--------
 src/fpe/ff1_cmac.c    | 22 ++++++++++++++--------
 src/fpe/ff3.c         | 22 ++++++++++++++--------
 src/fpe/ff3_gmac.c    | 22 ++++++++++++++--------
 src/fpe_app/cn_utf8.c | 24 +++++++++++++++---------
 src/fpe_app/idcard.c  | 24 +++++++++++++++---------
 src/fpe_app/phone.c   | 24 +++++++++++++++---------
 7 files changed, 101 insertions(+), 59 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 1630298..6843c39 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -6,6 +6,11 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     if (!check_chars(input, ctx->radix, 2)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -19,11 +24,8 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         char little;
     } is_endian = {1};
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -150,6 +152,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     free(Bytes);
     free(Q);
     free(S);
@@ -161,6 +164,11 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     if (!check_chars(input, ctx->radix, 2)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -174,11 +182,8 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         char little;
     } is_endian = {1};
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -301,6 +306,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     free(Bytes);
     free(Q);
     free(S);
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2126f9f..a01043d 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -36,6 +36,11 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     if (!check_chars(input, ctx->fpe_ctx->radix, 2)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -49,11 +54,8 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         char little;
     } is_endian = {1};
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -201,6 +203,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     free(Bytes);
     free(Q);
     free(S);
@@ -212,6 +215,11 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     if (!check_chars(input, ctx->fpe_ctx->radix, 2)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -225,11 +233,8 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         char little;
     } is_endian = {1};
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -373,6 +378,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     free(Bytes);
     free(Q);
     free(S);
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index a36cc6e..362a174 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -6,6 +6,11 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     if (!check_chars(input, ctx->radix, 1)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -14,11 +19,8 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -81,6 +83,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     OPENSSL_free(Bytes);
     return ret;
 }
@@ -90,6 +93,11 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     if (!check_chars(input, ctx->radix, 1)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -98,11 +106,8 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -166,6 +171,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     OPENSSL_free(Bytes);
     return ret;
 }
\ No newline at end of file
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index e1fadc3..679cf81 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -84,6 +84,11 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     if (!check_chars(input, ctx->fpe_ctx->radix, 1)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -92,11 +97,8 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -175,6 +177,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     OPENSSL_free(Bytes);
     return ret;
 }
@@ -184,6 +187,11 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     if (!check_chars(input, ctx->fpe_ctx->radix, 1)) {
         return 0;
     }
+    unsigned int inlen = strlen(input);
+    unsigned int *out = (unsigned int *) malloc(inlen * sizeof(unsigned int));
+    if (out == NULL) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -192,11 +200,8 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
 
-    unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    map_chars(input, out);
 
-    memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
@@ -275,6 +280,7 @@ cleanup:
     BN_clear_free(qpow_u);
     BN_clear_free(qpow_v);
     BN_CTX_free(bn_ctx);
+    free(out);
     OPENSSL_free(Bytes);
     return ret;
 }
diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 2e01e42..1260005 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -49,9 +49,13 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     if (strcmp(sample, "") != 0) {
         tweak_len = len - tweak_len;
     }
-    char input[(len - tweak_len) * 4 + 1];
-    char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4 + 1];
+    char *input = (char *) malloc((len - tweak_len) * 4 + 1);
+    char *tweak = (char *) malloc(tweak_len * 4 + 1);
+    char *ans = (char *) malloc((len - tweak_len) * 4 + 1);
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
+    if (input == NULL || tweak == NULL || ans == NULL) {
+        goto cleanup;
+    }
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -80,17 +84,16 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     input[(len - tweak_len) * 4] = '\0';
     tweak[tweak_len * 4] = '\0';
 
-    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
-        fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
+        fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, tweak_len * 4 + 1, 12);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
-        fpe_ctx = WBCRYPTO_wbsm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
+        fpe_ctx = WBCRYPTO_wbsm4_fpe_init(ctx->cipher_ctx, tweak, tweak_len * 4 + 1, 12);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
-        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
+        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, tweak_len * 4 + 1, 12);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
-        fpe_ctx = WBCRYPTO_wbaes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
+        fpe_ctx = WBCRYPTO_wbaes_fpe_init(ctx->cipher_ctx, tweak, tweak_len * 4 + 1, 12);
     } else { // default: aes
-        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
+        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, tweak_len * 4 + 1, 12);
     }
     if (fpe_ctx == NULL || (*block)(fpe_ctx, input, ans) == 0) {
         goto cleanup;
@@ -124,6 +127,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     ret = 1;
 cleanup:
     WBCRYPTO_fpe_free(fpe_ctx);
+    free(input);
+    free(tweak);
+    free(ans);
     return ret;
 }
 
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index 24b43d9..88da47b 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -23,9 +23,13 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
             }
         }
     }
-    char input[len - tweak_len + 1];
-    char tweak[tweak_len + 1];
-    char ans[len - tweak_len + 1];
+    char *input = (char *) malloc(len - tweak_len + 1);
+    char *tweak = (char *) malloc(tweak_len + 1);
+    char *ans = (char *) malloc(len - tweak_len + 1);
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
+    if (input == NULL || tweak == NULL || ans == NULL) {
+        goto cleanup;
+    }
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -36,17 +40,16 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     input[len - tweak_len] = '\0';
     tweak[tweak_len] = '\0';
 
-    WBCRYPTO_fpe_context *fpe_ctx;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
-        fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
-        fpe_ctx = WBCRYPTO_wbsm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_wbsm4_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
-        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
-        fpe_ctx = WBCRYPTO_wbaes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_wbaes_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else { // default: aes
-        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     }
     if (fpe_ctx == NULL || (*block)(fpe_ctx, input, ans) == 0) {
         goto cleanup;
@@ -66,6 +69,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     ret = 1;
 cleanup:
     WBCRYPTO_fpe_free(fpe_ctx);
+    free(input);
+    free(tweak);
+    free(ans);
     return ret;
 }
 
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 0384798..d81c439 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -17,11 +17,15 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
             }
         }
     }
-    char input[len - tweak_len + 1];
+    char *input = (char *) malloc(len - tweak_len + 1);
+    char *tweak = (char *) malloc(tweak_len + 1);
+    char *ans = (char *) malloc(len - tweak_len + 1);
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
+    if (input == NULL || tweak == NULL || ans == NULL) {
+        goto cleanup;
+    }
     input[len - tweak_len] = '\0';
-    char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -30,17 +34,16 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
         }
     }
 
-    WBCRYPTO_fpe_context *fpe_ctx;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
-        fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
-        fpe_ctx = WBCRYPTO_wbsm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_wbsm4_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
-        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
-        fpe_ctx = WBCRYPTO_wbaes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_wbaes_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     } else { //default:aes
-        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
+        fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, tweak_len + 1, 10);
     }
     if (fpe_ctx == NULL || (*block)(fpe_ctx, input, ans) == 0) {
         goto cleanup;
@@ -57,6 +60,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     ret = 1;
 cleanup:
     WBCRYPTO_fpe_free(fpe_ctx);
+    free(input);
+    free(tweak);
+    free(ans);
     return ret;
 }
 
-- 
2.43.0


From 0c1ca0b4435319738d55dfcadb23ae07f2a2b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 32/39] fix: wipe key material before it is given back to the
 heap

The memset before free() in the context free functions is a dead store
and compiled out at -O3, and aux_sm4_init_key freed the padded key as it
was. Use OPENSSL_cleanse, which is not optimised away.
---
 src/aes/aes.c                     | 3 ++-
 src/modes/gcm128.c                | 3 ++-
 src/modes/gcmfile.c               | 3 ++-
 src/se_wbsm4/se_wbsm4.c           | 3 ++-
 src/sm4/sm4.c                     | 4 +++-
 src/wbaes/wbaes.c                 | 3 ++-
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 3 ++-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 3 ++-
 src/wbsm4/wbsm4.c                 | 3 ++-
 9 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 9c699fd..4202eb1 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/aes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_aes_context *WBCRYPTO_aes_context_init(){
     struct aes_context *ctx=malloc(sizeof(struct aes_context));
@@ -16,7 +17,7 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
     if(ctx==NULL){
         return;
     }
-    memset(ctx,0,sizeof(struct aes_context));
+    OPENSSL_cleanse(ctx,sizeof(struct aes_context));
     free(ctx);
 }
 
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 224bbe8..4bffc70 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 void gcm_mult( WBCRYPTO_gcm_context *ctx,
                       const unsigned char x[16],
@@ -296,6 +297,6 @@ void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
     if(ctx==NULL){
         return;
     }
-    memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    OPENSSL_cleanse( ctx, sizeof(WBCRYPTO_gcm_context) );
     free(ctx);
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index de9a1e7..8139664 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <openssl/crypto.h>
 #include <wbcrypto/modes.h>
 
 WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
@@ -213,7 +214,7 @@ void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
         return;
     }
     WBCRYPTO_gcm_free(ctx->gcm);
-    memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcmfile_context));
     free(ctx);
 }
 
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 430471c..baea683 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -1,4 +1,5 @@
 #include "se_wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_se_wbsm4_context *WBCRYPTO_se_wbsm4_context_init(int encmode) {
     struct se_wbsm4_context *ctx = malloc(sizeof(struct se_wbsm4_context));
@@ -17,7 +18,7 @@ void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
     if(ctx==NULL){
         return;
     }
-    memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    OPENSSL_cleanse(ctx, sizeof(struct se_wbsm4_context));
     free(ctx);
 }
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 5a88d92..c314f82 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -10,6 +10,7 @@
  */
 
 #include <wbcrypto/sm4.h>
+#include <openssl/crypto.h>
 
 static const uint8_t SM4_S[256] = {
         0xD6, 0x90, 0xE9, 0xFE, 0xCC, 0xE1, 0x3D, 0xB7, 0x16, 0xB6, 0x14, 0xC2,
@@ -143,7 +144,7 @@ void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
     if(ctx==NULL){
         return;
     }
-    memset(ctx,0,sizeof(struct sm4_context));
+    OPENSSL_cleanse(ctx,sizeof(struct sm4_context));
     free(ctx);
 }
 
@@ -200,6 +201,7 @@ int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keyle
     }
     ret=1;
 cleanup:
+    OPENSSL_cleanse(padkey,16);
     free(padkey);
     return ret;
 }
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 0f2eeea..31ef039 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/wbaes.h>
+#include <openssl/crypto.h>
 #include "wbaes_local.h"
 
 WBCRYPTO_wbaes_context *WBCRYPTO_wbaes_context_init(){
@@ -17,7 +18,7 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
     if(ctx==NULL){
         return;
     }
-    memset(ctx,0,sizeof(struct wbaes_context));
+    OPENSSL_cleanse(ctx,sizeof(struct wbaes_context));
     free(ctx);
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 7a04922..f290100 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -1,4 +1,5 @@
 #include "wbcrypto/wbaes_wbgcm_ee.h"
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -288,7 +289,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
     if (ctx != NULL) {
-        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index ac6fd2f..d61ce69 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/wbaes_wbgcm_mask.h>
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_mask_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -318,7 +319,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
     if (ctx != NULL) {
-        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 198ef4a..3ec30e6 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -1,4 +1,5 @@
 #include "wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
     int i,j,k;
@@ -70,7 +71,7 @@ void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
     free(ctx->CC);
     free(ctx->DD);
     free(ctx->Table);
-    memset(ctx,0,sizeof(struct wbsm4_context));
+    OPENSSL_cleanse(ctx,sizeof(struct wbsm4_context));
     free(ctx);
 }
 
-- 
2.43.0


From e74b5cc6866a19d2012d3b73827d8be4a48468d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 33/39] fix: report a failed allocation in
 WBCRYPTO_wbsm4_context_init

The tables were used without looking at what malloc returned. Free what
has been allocated and return NULL, as for the context itself.
---
 src/wbsm4/wbsm4.c | 68 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 3ec30e6..59f8825 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -3,32 +3,46 @@
 
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
     int i,j,k;
-    struct wbsm4_context *ctx=malloc(sizeof(struct wbsm4_context));
+    struct wbsm4_context *ctx=calloc(1,sizeof(struct wbsm4_context));
     if(ctx==NULL){
         return NULL;
     }
     int rounds = 32 + 4*dummyrounds;
-    ctx->MM = (uint32_t ****)malloc(rounds*sizeof(uint32_t***));
-    ctx->CC = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->DD = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->Table = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
+    ctx->rounds=rounds;
+    ctx->encmode=encmode;
+    ctx->MM = (uint32_t ****)calloc(rounds,sizeof(uint32_t***));
+    ctx->CC = (uint32_t ***)calloc(rounds,sizeof(uint32_t**));
+    ctx->DD = (uint32_t ***)calloc(rounds,sizeof(uint32_t**));
+    ctx->Table = (uint32_t ***)calloc(rounds,sizeof(uint32_t**));
+    if(ctx->MM==NULL||ctx->CC==NULL||ctx->DD==NULL||ctx->Table==NULL){
+        goto cleanup;
+    }
 
     for(i=0;i<rounds;i++){
-        ctx->MM[i]=(uint32_t ***)malloc((3)*sizeof(uint32_t**));
-        ctx->CC[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->DD[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->Table[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+        ctx->MM[i]=(uint32_t ***)calloc(3,sizeof(uint32_t**));
+        ctx->CC[i]=(uint32_t **)calloc(4,sizeof(uint32_t*));
+        ctx->DD[i]=(uint32_t **)calloc(4,sizeof(uint32_t*));
+        ctx->Table[i]=(uint32_t **)calloc(4,sizeof(uint32_t*));
+        if(ctx->MM[i]==NULL||ctx->CC[i]==NULL||ctx->DD[i]==NULL||ctx->Table[i]==NULL){
+            goto cleanup;
+        }
     }
 
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
-            ctx->MM[i][j]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+            ctx->MM[i][j]=(uint32_t **)calloc(4,sizeof(uint32_t*));
+            if(ctx->MM[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
             for (k = 0; k < 4; k++) {
                 ctx->MM[i][j][k] = (uint32_t *) malloc((256) * sizeof(uint32_t));
+                if(ctx->MM[i][j][k]==NULL){
+                    goto cleanup;
+                }
             }
         }
     }
@@ -38,11 +52,15 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
             ctx->CC[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
             ctx->DD[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
             ctx->Table[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
+            if(ctx->CC[i][j]==NULL||ctx->DD[i][j]==NULL||ctx->Table[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
-    ctx->rounds=rounds;
-    ctx->encmode=encmode;
     return ctx;
+cleanup:
+    WBCRYPTO_wbsm4_context_free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
@@ -50,22 +68,30 @@ void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
     if(ctx==NULL){
         return;
     }
+    // a context that could not be allocated as a whole has NULL pointers
     for(i=0; i< ctx->rounds; i++) {
-        for (j = 0; j < 3; j++) {
-            for (k = 0; k < 4; k++) {
+        for (j = 0; ctx->MM!=NULL && ctx->MM[i]!=NULL && j < 3; j++) {
+            for (k = 0; ctx->MM[i][j]!=NULL && k < 4; k++) {
                 free(ctx->MM[i][j][k]);
             }
             free(ctx->MM[i][j]);
         }
         for (j = 0; j < 4; j++) {
-            free(ctx->CC[i][j]);
-            free(ctx->DD[i][j]);
-            free(ctx->Table[i][j]);
+            if(ctx->CC!=NULL && ctx->CC[i]!=NULL)
+                free(ctx->CC[i][j]);
+            if(ctx->DD!=NULL && ctx->DD[i]!=NULL)
+                free(ctx->DD[i][j]);
+            if(ctx->Table!=NULL && ctx->Table[i]!=NULL)
+                free(ctx->Table[i][j]);
         }
-        free(ctx->MM[i]);
-        free(ctx->CC[i]);
-        free(ctx->DD[i]);
-        free(ctx->Table[i]);
+        if(ctx->MM!=NULL)
+            free(ctx->MM[i]);
+        if(ctx->CC!=NULL)
+            free(ctx->CC[i]);
+        if(ctx->DD!=NULL)
+            free(ctx->DD[i]);
+        if(ctx->Table!=NULL)
+            free(ctx->Table[i]);
     }
     free(ctx->MM);
     free(ctx->CC);
-- 
2.43.0


From 980c25b0052b93fbcf4ca904107dc163f15c2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 34/39] fix: report a failed allocation in FF1, FF3 and their
 MAC variants

The work buffers were used without looking at what malloc returned.
---
 src/fpe/ff1.c      | 20 ++++++++++++++++----
 src/fpe/ff1_cmac.c | 20 ++++++++++++++++----
 src/fpe/ff3.c      |  6 ++++++
 src/fpe/ff3_gmac.c |  6 ++++++
 4 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 6843c39..d1cb3e4 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -38,7 +38,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b), *S = NULL;
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -73,7 +76,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (S == NULL) {
+        goto cleanup;
+    }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -196,7 +202,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b), *S = NULL;
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -230,7 +239,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (S == NULL) {
+        goto cleanup;
+    }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index a01043d..62d8285 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -68,7 +68,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b), *S = NULL;
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -107,7 +110,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (S == NULL) {
+        goto cleanup;
+    }
     WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
@@ -247,7 +253,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b), *S = NULL;
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -285,7 +294,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (S == NULL) {
+        goto cleanup;
+    }
     WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 362a174..2629c3a 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -30,6 +30,9 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned char S[16], P[16];
     unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
 
     for (int i = 0; i < FF3_ROUNDS; ++i) {
         // i
@@ -117,6 +120,9 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned char S[16], P[16];
     unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 679cf81..2ed2def 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -108,6 +108,9 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned char S[16], P[16];
     unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
@@ -210,6 +213,9 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     const int b = ceil2(temp, 3);
 
     unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-- 
2.43.0


From 188d00953306cd8e5d265be989c31a64cbaaf61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 35/39] fix: report a failed allocation in parallel GCM

The counter blocks were written through NULL.
---
 src/modes/gcm_parallel.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index e700a76..53d2052 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -21,9 +21,18 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    if (y_arr == NULL && len_s != 0)
+        return 0;
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if (y_arr[i] == NULL)
+        {
+            while (i > 0)
+                free(y_arr[--i]);
+            free(y_arr);
+            return 0;
+        }
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -99,9 +108,18 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    if (y_arr == NULL && len_s != 0)
+        return 0;
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if (y_arr[i] == NULL)
+        {
+            while (i > 0)
+                free(y_arr[--i]);
+            free(y_arr);
+            return 0;
+        }
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
-- 
2.43.0


From 90d55e5f9dd76b0c0673b144d46d0af605f80856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 36/39] fix: report a failed allocation in
 WBCRYPTO_wbaes_wbgcm_mask_init_table

---
 src/wbaes/wbaes_wbgcm_mask_init.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index 4d2563c..a09023f 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -15,16 +15,36 @@ WBCRYPTO_wbaes_wbgcm_mask_context* WBCRYPTO_wbaes_wbgcm_mask_init_table(){
     if(ctx==NULL){
         return NULL;
     }
-    ctx->GBOX_TypeIII=(uint8_t ***)malloc((16)*sizeof(uint8_t**));
+    ctx->GBOX_TypeIII=(uint8_t ***)calloc(16,sizeof(uint8_t**));
+    if(ctx->GBOX_TypeIII==NULL){
+        free(ctx);
+        return NULL;
+    }
     for(i=0; i< 16; i++) {
-        ctx->GBOX_TypeIII[i]=(uint8_t **)malloc((256)*sizeof(uint8_t*));
+        ctx->GBOX_TypeIII[i]=(uint8_t **)calloc(256,sizeof(uint8_t*));
+        if(ctx->GBOX_TypeIII[i]==NULL){
+            goto cleanup;
+        }
     }
     for(i=0; i< 16; i++) {
         for (j = 0; j < 256; j++) {
             ctx->GBOX_TypeIII[i][j] = (uint8_t *) malloc((256) * sizeof(uint8_t));
+            if(ctx->GBOX_TypeIII[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     return ctx;
+cleanup:
+    for(i=0; i< 16; i++) {
+        for (j = 0; ctx->GBOX_TypeIII[i]!=NULL && j < 256; j++) {
+            free(ctx->GBOX_TypeIII[i][j]);
+        }
+        free(ctx->GBOX_TypeIII[i]);
+    }
+    free(ctx->GBOX_TypeIII);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *ctx, const uint8_t *key, size_t keylen)
-- 
2.43.0


From de6a2088c4d70304f225a09b64093692f0451c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 37/39] fix: report a failed allocation in SM4 key setup and
 the table generation on top of it

The padded key, the temporary SM4 context and the dummy round list were
used without looking at what malloc returned.
---
 src/se_wbsm4/se_wbsm4.c | 10 ++++++----
 src/sm4/sm4.c           |  3 +++
 src/utils/wrandom.c     |  2 ++
 src/wbsm4/wbsm4_gen.c   | 25 +++++++++++++++++++++----
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index baea683..c7a9a88 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -31,10 +31,12 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
     Aff32 AA[32], BB[32];
 
     WBCRYPTO_sm4_context *sm4_key = WBCRYPTO_sm4_context_init();
-    if (ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
-    } else {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+    if (sm4_key == NULL) {
+        return 0;
+    }
+    if (aux_sm4_init_key(sm4_key, key, keylen, ctx->encmode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE) == 0) {
+        WBCRYPTO_sm4_context_free(sm4_key);
+        return 0;
     }
     InitRandom(((unsigned int) time(NULL)));
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index c314f82..fd804b7 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -151,6 +151,9 @@ void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
     int ret=0;
     uint8_t *padkey = (uint8_t *)malloc(16*sizeof(uint8_t));
+    if(padkey==NULL){
+        return ret;
+    }
 
     WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);   //Operation after key-padding
 
diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index d543e94..5148594 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -58,6 +58,8 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     int t, roundCnt, ret;
     unsigned int *randNumbers;
     randNumbers = (unsigned int *)malloc((len + 10) * sizeof(unsigned int));
+    if (randNumbers == NULL)
+        return -1;
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index d466385..d745eeb 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -82,11 +82,21 @@ void identityAff32(Aff32 *aff){
 uint8_t *wbsm4_gen_dummyround_array(int rounds, int dummyrounds) {
     int len_origin = rounds + dummyrounds;
     uint8_t *da = (uint8_t*) malloc(sizeof(uint8_t)*(len_origin));
+    if (da == NULL) {
+        return NULL;
+    }
     memset(da, 0, rounds);
     memset(da+rounds, 1, dummyrounds);
-    wRandomShuffleU8(da, len_origin);
+    if (wRandomShuffleU8(da, len_origin) != 0) {
+        free(da);
+        return NULL;
+    }
     int len_result = rounds + 4*dummyrounds;
     uint8_t *result = (uint8_t*) malloc(sizeof(uint8_t)*(len_result));
+    if (result == NULL) {
+        free(da);
+        return NULL;
+    }
     uint8_t *iter = result;
     int i;
     for (i=0; i<len_origin; i++) {
@@ -121,15 +131,22 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     Aff32 D[32];
     uint32_t Q_constant[3] = {0};
 
+    uint8_t *dummy_array = NULL;
     WBCRYPTO_sm4_context *sm4_key=WBCRYPTO_sm4_context_init();
+    if(sm4_key==NULL) {
+        goto cleanup;
+    }
     if(wbsm4_ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE));
     }else{
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE));
     }
     InitRandom(((unsigned int)time(NULL)));
 
-    uint8_t *dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    if(dummy_array==NULL) {
+        goto cleanup;
+    }
 
     for (i = 0; i < 36; i++)
     {
-- 
2.43.0


From 686565455c34d9be8214b5fda1406373e5ceee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 38/39] fix: WBCRYPTO_fpe_app_init reports that the key context
 could not be set up

---
 src/fpe_app/init.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index bf40ce6..8b07386 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,28 +5,44 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
+    ctx->cipher_ctx = NULL;
     uint8_t input_key[16];
     WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
-        WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
+        if (sm4_ctx == NULL || WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key)) == 0) {
+            WBCRYPTO_sm4_context_free(sm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
-        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key));
+        if (wbsm4_ctx == NULL || WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key)) == 0) {
+            WBCRYPTO_wbsm4_context_free(wbsm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (aes_ctx == NULL || WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key)) == 0) {
+            WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
-        WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key));
+        if (wbaes_ctx == NULL || WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key)) == 0) {
+            WBCRYPTO_wbaes_context_free(wbaes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (aes_ctx == NULL || WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key)) == 0) {
+            WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
-- 
2.43.0


From c0b86a20e197bf485af4e75d903be784d04a25a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 39/39] fix: the UDF reports that its key context could not be
 set up

---
 udf/mysql5.cpp | 5 ++++-
 udf/mysql8.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index a04bb38..2fe1755 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -96,7 +96,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     initid->ptr[plain_len] = '\0';
 
     WBCRYPTO_fpe_app_context app_ctx;
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1") == 0) {
+        *error = 1;
+        return NULL;
+    }
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) { // the length of phone should be 11
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index c8a466e..ee86680 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -96,7 +96,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     initid->ptr[plain_len] = '\0';
 
     WBCRYPTO_fpe_app_context app_ctx;
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1") == 0) {
+        *error = 1;
+        return NULL;
+    }
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) { // the length of phone should be 11
-- 
2.43.0

