From f3d3213fb6204aad949d7d3f099a113e00680f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 01/65] fix: make the GOST 28147-89 MAC of an 8-byte message
 independent of chunking

The first block was processed at once when it was completed by a second
update call, but kept until final when it came in a single call. Final
appends a zero block to single block messages only in the latter case.
---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..d1569f1 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1537,7 +1537,8 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        /* Like below, keep the last complete block until more data comes */
+        if (bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
             c->bytes_left = i;
-- 
2.43.0


From 3402c63aa20ef3424b8a6f2f10759f3c162cf25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 02/65] fix: accept every documented size of a Kuznyechik MAC
 given as a string

The control command refused sizes above 8 although the MAC has up to 16
bytes and the binary control accepts them.
---
 gost_pmeth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..2bf344a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -917,7 +917,7 @@ static int pkey_gost_magma_mac_ctrl_str(EVP_PKEY_CTX *ctx,
 static int pkey_gost_grasshopper_mac_ctrl_str(EVP_PKEY_CTX *ctx,
                                   const char *type, const char *value)
 {
-    return pkey_gost_omac_ctrl_str(ctx, type, value, 8);
+    return pkey_gost_omac_ctrl_str(ctx, type, value, 16);
 }
 
 static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
-- 
2.43.0


From 0301d56e4d5a0c9535b87fcfbe8840e0b26b3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 03/65] fix: do not write a MAC into a buffer that is too small
 for it

EVP_DigestSignFinal passes the size of the caller's buffer; it was ignored.
---
 gost_pmeth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 2bf344a..5763e9b 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -1027,6 +1027,11 @@ static int pkey_gost_mac_signctx(EVP_PKEY_CTX *ctx, unsigned char *sig,
         return 1;
     }
 
+    if (*siglen < data->mac_size) {
+        GOSTerr(GOST_F_PKEY_GOST_MAC_SIGNCTX_INIT, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
+
     EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
         (mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL);
     ret = EVP_DigestFinal_ex(mctx, sig, &tmpsiglen);
-- 
2.43.0


From fd62781d80767504549f187a8ad4bb0111fcf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 04/65] fix: start every cipher message from its own key, IV
 and position

Re-initialising a context kept the meshed key, the position in the
previous message and part of the counter, and forgot the parameters
set from ASN.1 before the key.
---
 gost_crypt.c              | 83 ++++++++++++++++++---------------------
 gost_grasshopper_cipher.c | 18 +++++----
 2 files changed, 48 insertions(+), 53 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index d1569f1..e3bace4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -412,6 +412,23 @@ static int gost_cipher_set_param(struct ossl_gost_cipher_ctx *c, int nid)
     return 1;
 }
 
+/* Forgets the position in the previous message and sets or restores the IV */
+static void gost_cipher_new_message(EVP_CIPHER_CTX *ctx,
+                                    const unsigned char *iv)
+{
+    struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    unsigned char *cur_iv = EVP_CIPHER_CTX_iv_noconst(ctx);
+    int iv_len = EVP_CIPHER_CTX_iv_length(ctx);
+
+    if (iv)
+        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, iv_len);
+    /* The counter part of a CTR mode IV starts from zero */
+    memset(cur_iv, 0, 8);
+    memcpy(cur_iv, EVP_CIPHER_CTX_original_iv(ctx), iv_len);
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    c->count = 0;
+}
+
 /* Initializes EVP_CIPHER_CTX by paramset NID */
 static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
@@ -425,47 +442,28 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
     if (key)
-        gost_key(&(c->cctx), key);
-    if (iv) {
-        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
-               EVP_CIPHER_CTX_iv_length(ctx));
-    }
-    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
-           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
-    return 1;
-}
-
-static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
-                                const unsigned char *key,
-                                const unsigned char *iv,
-                                gost_subst_block * block)
-{
-    struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    gost_init(&(c->cctx), block);
-    c->key_meshing = 1;
-    c->count = 0;
-    if (key)
-        gost_key(&(c->cctx), key);
-    if (iv) {
-        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
-               EVP_CIPHER_CTX_iv_length(ctx));
-    }
-    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
-           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+        magma_master_key(&(c->cctx), key);
+    /* Without a new key go back to the one set, meshing may have changed it */
+    gost_key(&(c->cctx), (const byte *)c->cctx.master_key);
+    gost_cipher_new_message(ctx, iv);
     return 1;
 }
 
 static int gost_cipher_init_cpa(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                                 const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_CryptoProParamSetA);
+    return gost_cipher_init_param(ctx, key, iv, enc,
+                                  NID_id_Gost28147_89_CryptoPro_A_ParamSet,
+                                  EVP_CIPH_OFB_MODE);
 }
 
 static int gost_cipher_init_cp_12(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
                                   const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_TC26ParamSetZ);
+    return gost_cipher_init_param(ctx, key, iv, enc,
+                                  NID_id_tc26_gost_28147_param_Z,
+                                  EVP_CIPH_OFB_MODE);
 }
 
 /* Initializes EVP_CIPHER_CTX with default values */
@@ -495,29 +493,24 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
+        if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
+         || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
+           c->key_meshing = 1024;
+        } else {
+           c->key_meshing = 0;
+        }
+
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
                 return -1;
         }
     }
 
-    if (key) {
-        magma_key(&(c->cctx), key);
+    if (key)
         magma_master_key(&(c->cctx), key);
-    }
-    if (iv) {
-        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
-               EVP_CIPHER_CTX_iv_length(ctx));
-    }
-    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
-           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
-
-    if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
-     || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-       c->key_meshing = 1024;
-    } else {
-       c->key_meshing = 0;
-    }
+    /* Without a new key go back to the one set, ACPKM may have changed it */
+    magma_key(&(c->cctx), (const byte *)c->cctx.master_key);
+    gost_cipher_new_message(ctx, iv);
 
     return 1;
 }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..bba2d6e 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -247,18 +247,21 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         }
     }
 
-    if (key != NULL) {
-        gost_grasshopper_cipher_key(c, key);
+    if (key != NULL)
         gost_grasshopper_master_key(c, key);
-    }
+    /* Without a new key go back to the one set, ACPKM may have changed it */
+    gost_grasshopper_cipher_key(c, c->master_key.k.b);
 
     if (iv != NULL) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* The counter part of a CTR mode IV starts from zero */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, GRASSHOPPER_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     grasshopper_zero128(&c->buffer);
 
@@ -313,7 +316,6 @@ gost_grasshopper_cipher_init_ctr(EVP_CIPHER_CTX *ctx, const unsigned char
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
     c->c.type = GRASSHOPPER_CIPHER_CTR;
-    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     grasshopper_zero128(&c->partial_buffer);
 
@@ -330,8 +332,8 @@ gost_grasshopper_cipher_init_ctracpkm(EVP_CIPHER_CTX
 
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKM;
-    EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
@@ -346,8 +348,8 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKMOMAC;
-    EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     if (key) {
         unsigned char cipher_key[32];
-- 
2.43.0


From 4ba011a26e1ea7fb1c7365b9531ce56fbfb5e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 05/65] fix: MGM start values do not depend on associated data
 being present

Decryption without associated data used a stale counter and refused valid
messages; an empty data update in front of associated data gave a wrong tag.
---
 gost_gost2015.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..e57cca6 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -231,7 +231,10 @@ int gost_mgm128_setiv(mgm128_context *ctx, const unsigned char *iv,
     ctx->sum.u[1] = 0;
 
     memcpy(ctx->nonce.c, iv, ctx->blocklen);
+    ctx->nonce.c[0] |= 0x80;
+    (*ctx->block) (ctx->nonce.c, ctx->Zi.c, ctx->key);  // Z_1 = E_K(1 || nonce)
     ctx->nonce.c[0] &= 0x7f;    /* IV - random vector, but 1st bit should be 0 */
+    (*ctx->block) (ctx->nonce.c, ctx->Yi.c, ctx->key);  // Y_1 = E_K(0 || nonce)
     return 1;
 }
 
@@ -252,11 +255,6 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
         return -2;
     }
 
-    if (alen == 0) {
-        ctx->nonce.c[0] |= 0x80;
-        (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
-    }
-
     alen += len;
     if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
@@ -316,14 +314,8 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
     void *key = ctx->key;
     int bl = ctx->blocklen;
 
-    if (mlen == 0) {
-        if (alen == 0) {
-            ctx->nonce.c[0] |= 0x80;
-            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
-        }
-        ctx->nonce.c[0] &= 0x7f;
-        (*block) (ctx->nonce.c, ctx->Yi.c, key);    // Y_1 = E_K(0 || nonce)
-    }
+    if (len == 0)
+        return 0;
 
     mlen += len;
 
@@ -384,10 +376,8 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     void *key = ctx->key;
     int bl = ctx->blocklen;
 
-    if (mlen == 0) {
-        ctx->nonce.c[0] &= 0x7f;
-        (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
-    }
+    if (len == 0)
+        return 0;
 
     mlen += len;
     if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
-- 
2.43.0


From 3525479b2a92070bb9a6a5d72666148972c039b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 06/65] fix: keep MGM nonce, key and tag of a context to that
 context and message

A copied context used the key of its source, even after that was freed.
A tag computed or checked earlier was accepted as the expected tag of the
next message, an IV set before the key was lost, and an IV shorter than
a block was read past its end.
---
 gost_crypt.c              | 47 +++++++++++++++++++++++--------------
 gost_gost2015.h           |  3 ++-
 gost_grasshopper_cipher.c | 49 ++++++++++++++++++++++++---------------
 3 files changed, 62 insertions(+), 37 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index e3bace4..4fd3c95 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,7 +258,8 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -634,15 +635,17 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
+    /* Save IV for a key that is set later */
+    if (iv && iv != mctx->iv)
+        memcpy(mctx->iv, iv, mctx->ivlen);
+    mctx->tag_ready = 0;
     return 1;
 }
 
@@ -923,17 +926,21 @@ static int gost_magma_cipher_do_mgm(EVP_CIPHER_CTX *ctx, unsigned char *out,
         return len;
     } else {
         if (!enc) {
-            if (mctx->taglen < 0)
+            int taglen = mctx->taglen;
+
+            if (taglen < 0)
                 return -1;
+            /* Neither the IV nor the expected tag serves another message */
+            mctx->iv_set = 0;
+            mctx->taglen = -1;
             if (gost_mgm128_finish(&mctx->mgm,
                                    EVP_CIPHER_CTX_buf_noconst(ctx),
-                                   mctx->taglen) != 0)
+                                   taglen) != 0)
                 return -1;
-            mctx->iv_set = 0;
             return 0;
         }
         gost_mgm128_tag(&mctx->mgm, EVP_CIPHER_CTX_buf_noconst(ctx), 8);
-        mctx->taglen = 8;
+        mctx->tag_ready = 1;
         /* Don't reuse the IV */
         mctx->iv_set = 0;
         return 0;
@@ -1098,6 +1105,7 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         mctx->ivlen = ivlen;
         mctx->iv = iv;
         mctx->taglen = -1;
+        mctx->tag_ready = 0;
         return 1;
 
     case EVP_CTRL_GET_IVLEN:
@@ -1105,14 +1113,8 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* The nonce of MGM is always one block */
+        return arg == mctx->ivlen;
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
@@ -1129,7 +1131,7 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
     case EVP_CTRL_AEAD_GET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
         enc = EVP_CIPHER_CTX_encrypting(c);
-        if (arg <= 0 || arg > 8 || !enc || mctx->taglen < 0) {
+        if (arg <= 0 || arg > 8 || !enc || !mctx->tag_ready) {
             GOSTerr(GOST_F_GOST_MAGMA_MGM_CTRL,
                     GOST_R_INVALID_TAG_LENGTH);
             return 0;
@@ -1137,6 +1139,17 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY:
+        {
+            EVP_CIPHER_CTX *out = ptr;
+            gost_mgm_ctx *out_mctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+            /* These point into the context */
+            out_mctx->mgm.key = &out_mctx->ks;
+            out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+            return 1;
+        }
+
     default:
         return -1;
     }
diff --git a/gost_gost2015.h b/gost_gost2015.h
index 37b94d0..3c0b7f8 100644
--- a/gost_gost2015.h
+++ b/gost_gost2015.h
@@ -55,7 +55,8 @@ typedef struct {
     mgm128_context mgm;
     unsigned char *iv;
     int ivlen;
-    int taglen;
+    int taglen;                 /* expected tag, -1 if not set */
+    int tag_ready;              /* computed tag can be read */
     int tlstree_mode;
 } gost_mgm_ctx;
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index bba2d6e..61d9762 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,8 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -498,15 +499,17 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
+    /* Save IV for a key that is set later */
+    if (iv && iv != mctx->iv)
+        memcpy(mctx->iv, iv, mctx->ivlen);
+    mctx->tag_ready = 0;
     return 1;
 }
 
@@ -784,17 +787,21 @@ static int gost_grasshopper_cipher_do_mgm(EVP_CIPHER_CTX *ctx, unsigned char *ou
         return len;
     } else {
         if (!enc) {
-            if (mctx->taglen < 0)
+            int taglen = mctx->taglen;
+
+            if (taglen < 0)
                 return -1;
+            /* Neither the IV nor the expected tag serves another message */
+            mctx->iv_set = 0;
+            mctx->taglen = -1;
             if (gost_mgm128_finish(&mctx->mgm,
                                    EVP_CIPHER_CTX_buf_noconst(ctx),
-                                   mctx->taglen) != 0)
+                                   taglen) != 0)
                 return -1;
-            mctx->iv_set = 0;
             return 0;
         }
         gost_mgm128_tag(&mctx->mgm, EVP_CIPHER_CTX_buf_noconst(ctx), 16);
-        mctx->taglen = 16;
+        mctx->tag_ready = 1;
         /* Don't reuse the IV */
         mctx->iv_set = 0;
         return 0;
@@ -1027,8 +1034,6 @@ static int gost_grasshopper_mgm_cleanup(EVP_CIPHER_CTX *c)
         return 0;
     gost_grasshopper_cipher_destroy(&mctx->ks.gh_ks);
     OPENSSL_cleanse(&mctx->mgm, sizeof(mctx->mgm));
-    if (mctx->iv != EVP_CIPHER_CTX_iv_noconst(c))
-        OPENSSL_free(mctx->iv);
     return 1;
 }
 
@@ -1048,6 +1053,7 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         mctx->ivlen = ivlen;
         mctx->iv = iv;
         mctx->taglen = -1;
+        mctx->tag_ready = 0;
         return 1;
 
     case EVP_CTRL_GET_IVLEN:
@@ -1055,14 +1061,8 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* The nonce of MGM is always one block */
+        return arg == mctx->ivlen;
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
@@ -1079,7 +1079,7 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
     case EVP_CTRL_AEAD_GET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
         enc = EVP_CIPHER_CTX_encrypting(c);
-        if (arg <= 0 || arg > 16 || !enc || mctx->taglen < 0) {
+        if (arg <= 0 || arg > 16 || !enc || !mctx->tag_ready) {
             GOSTerr(GOST_F_GOST_GRASSHOPPER_MGM_CTRL,
                     GOST_R_INVALID_TAG_LENGTH);
             return 0;
@@ -1087,6 +1087,17 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY:
+        {
+            EVP_CIPHER_CTX *out = ptr;
+            gost_mgm_ctx *out_mctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+            /* These point into the context */
+            out_mctx->mgm.key = &out_mctx->ks;
+            out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+            return 1;
+        }
+
     default:
         return -1;
     }
-- 
2.43.0


From bbc73261a3f1b6953a686d3f1e3b74f72cd03801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 07/65] fix: start the MAC of a CTR-ACPKM-OMAC message afresh

Setting a new IV continued the MAC of the previous message, a tag left
over from the previous message was accepted as the expected one, keying a
context again leaked its MAC and a context without a key was not copied.
---
 gost_crypt.c              | 25 +++++++++++++++++++++----
 gost_gost2015.c           | 22 ++++++++++++++++++++++
 gost_gost2015.h           |  1 +
 gost_grasshopper_cipher.c | 19 +++++++++++++++++--
 gost_grasshopper_cipher.h |  1 +
 gost_lcl.h                |  1 +
 6 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 4fd3c95..2f906d5 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -520,9 +520,11 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                       const unsigned char *iv, int enc)
 {
+	struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
 	if (key) {
-    struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 		unsigned char cipher_key[32];
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
@@ -540,6 +542,9 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 		return magma_cipher_init(ctx, cipher_key, iv, enc);
 	}
 
+	if (gost2015_acpkm_omac_restart(&c->omac_ctx) != 1)
+		return 0;
+
 	return magma_cipher_init(ctx, key, iv, enc);
 }
 
@@ -873,8 +878,14 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
-	if (in == NULL && inl == 0) /* Final call */
+	if (in == NULL && inl == 0) { /* Final call */
+		if (!EVP_CIPHER_CTX_encrypting(ctx)) {
+			if (!c->tag_set)
+				return -1;
+			c->tag_set = 0;
+		}
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
+	}
 
   if (in == NULL)
       return -1;
@@ -1349,18 +1360,24 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
 		{
 			struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 			STACK_OF(X509_ATTRIBUTE) *x = ptr;
-      return gost2015_process_unprotected_attributes(x, arg, MAGMA_MAC_MAX_SIZE, c->tag);
+			int ret = gost2015_process_unprotected_attributes(x, arg, MAGMA_MAC_MAX_SIZE, c->tag);
+
+			if (ret > 0 && arg == 0)
+				c->tag_set = 1;
+			return ret;
 		}
     case EVP_CTRL_COPY: {
 			EVP_CIPHER_CTX *out = ptr;
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			if (in_cctx->omac_ctx == NULL) /* No key yet */
+				return 1;
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
 					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
+					return 0;
 				}
 			}
 			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
diff --git a/gost_gost2015.c b/gost_gost2015.c
index e57cca6..c04458b 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -193,6 +193,28 @@ end:
     return ret;
 }
 
+/* Starts the MAC of a new message under the same key */
+int gost2015_acpkm_omac_restart(EVP_MD_CTX **omac_ctx)
+{
+    EVP_MD_CTX *fresh;
+    EVP_PKEY *mac_key;
+
+    if (*omac_ctx == NULL)      /* No key yet */
+        return 1;
+
+    mac_key = EVP_PKEY_CTX_get0_pkey(EVP_MD_CTX_pkey_ctx(*omac_ctx));
+    fresh = EVP_MD_CTX_new();
+    if (fresh == NULL || mac_key == NULL ||
+        EVP_DigestSignInit(fresh, NULL, EVP_MD_CTX_md(*omac_ctx), NULL,
+                           mac_key) <= 0) {
+        EVP_MD_CTX_free(fresh);
+        return 0;
+    }
+    EVP_MD_CTX_free(*omac_ctx);
+    *omac_ctx = fresh;
+    return 1;
+}
+
 int init_zero_kdf_seed(unsigned char *kdf_seed)
 {
     int is_zero_kdfseed = 1, i;
diff --git a/gost_gost2015.h b/gost_gost2015.h
index 3c0b7f8..1b2bcf6 100644
--- a/gost_gost2015.h
+++ b/gost_gost2015.h
@@ -80,6 +80,7 @@ int gost2015_process_unprotected_attributes(STACK_OF(X509_ATTRIBUTE) *attrs,
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
                              EVP_MD_CTX *omac_ctx,
                              unsigned char *outkey, unsigned char *kdf_seed);
+int gost2015_acpkm_omac_restart(EVP_MD_CTX **omac_ctx);
 int init_zero_kdf_seed(unsigned char *kdf_seed);
 
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 61d9762..87111c9 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -354,6 +354,7 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
@@ -371,6 +372,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
         return gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
     }
 
+    if (gost2015_acpkm_omac_restart(&c->omac_ctx) != 1)
+        return 0;
+
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
 
@@ -736,6 +740,11 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
         EVP_DigestSignUpdate(c->omac_ctx, in, inl);
 
     if (in == NULL && inl == 0) { /* Final call */
+        if (!EVP_CIPHER_CTX_encrypting(ctx)) {
+            if (!c->tag_set)
+                return -1;
+            c->tag_set = 0;
+        }
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
     }
 
@@ -1204,11 +1213,15 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
     {
       STACK_OF(X509_ATTRIBUTE) *x = ptr;
       gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+      int ret;
 
       if (c->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
         return -1;
 
-      return gost2015_process_unprotected_attributes(x, arg, KUZNYECHIK_MAC_MAX_SIZE, c->tag);
+      ret = gost2015_process_unprotected_attributes(x, arg, KUZNYECHIK_MAC_MAX_SIZE, c->tag);
+      if (ret > 0 && arg == 0)
+        c->tag_set = 1;
+      return ret;
     }
     case EVP_CTRL_COPY: {
         EVP_CIPHER_CTX *out = ptr;
@@ -1219,11 +1232,13 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        if (in_cctx->omac_ctx == NULL) /* No key yet */
+            return 1;
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
                 GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
+                return 0;
             }
         }
         return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
diff --git a/gost_grasshopper_cipher.h b/gost_grasshopper_cipher.h
index a3a6470..c8362a3 100644
--- a/gost_grasshopper_cipher.h
+++ b/gost_grasshopper_cipher.h
@@ -35,6 +35,7 @@ typedef struct {
 				   if 0 never mesh and work like plain ctr. */
     unsigned char kdf_seed[8];
 		unsigned char tag[16];
+		int tag_set;                /* tag is the one expected */
 		EVP_MD_CTX *omac_ctx;
 } gost_grasshopper_cipher_ctx_ctr;
 
diff --git a/gost_lcl.h b/gost_lcl.h
index ffa8c76..10a610d 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -213,6 +213,7 @@ struct ossl_gost_cipher_ctx {
     int key_meshing;
     unsigned char kdf_seed[8];
     unsigned char tag[8];
+    int tag_set;                /* tag is the one expected */
     gost_ctx cctx;
     EVP_MD_CTX *omac_ctx;
 };
-- 
2.43.0


From 74df9d795cd9d759cbdac47496ae4a2d9516d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 08/65] fix: fail to initialise a cipher when no random seed
 could be had

EVP takes -1 from an init function for success and went on to encrypt
with a key that was never set.
---
 gost_crypt.c              | 2 +-
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 2f906d5..0d13ab3 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -503,7 +503,7 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+                return 0;
         }
     }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 87111c9..53a79bc 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -244,7 +244,7 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
             if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+                return 0;
         }
     }
 
-- 
2.43.0


From 307bbecbbda88dabac28d1bd431fe5356e637609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 09/65] fix: kimp15 and the wrap ciphers accepted truncated,
 over-long and failed unwraps

gost_kimp15() took any length up to its buffer and completed a truncated key
from the stack; the wrap ciphers returned success without a key when
unwrapping failed or too much input was given.
---
 gost_keyexpimp.c | 50 ++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..0f9062a 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -136,7 +136,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
@@ -348,16 +348,14 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
-			return -1;
+	if (in == NULL) /* Final call, the key has been given out by an update */
+		return cctx->wrap_count == (MAGMA_WRAPPED_KEY_LEN) ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= MAGMA_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > (MAGMA_WRAPPED_KEY_LEN) - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
 		return 0;
@@ -369,8 +367,12 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 #endif
 		return -1;
 	} else {
-		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		if (gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) <= 0) {
+			cctx->wrap_count = 0;
+			return -1;
+		}
+		return GOSTKEYLEN;
 	}
 }
 
@@ -401,16 +403,14 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
-			return -1;
+	if (in == NULL) /* Final call, the key has been given out by an update */
+		return cctx->wrap_count == (KUZNYECHIK_WRAPPED_KEY_LEN) ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= KUZNYECHIK_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > (KUZNYECHIK_WRAPPED_KEY_LEN) - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
 		return 0;
@@ -422,8 +422,12 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 #endif
 		return -1;
 	} else {
-		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		if (gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) <= 0) {
+			cctx->wrap_count = 0;
+			return -1;
+		}
+		return GOSTKEYLEN;
 	}
 }
 
-- 
2.43.0


From 985d09116c17c20fbf57856ec808be9454d248a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 10/65] fix: wrap ciphers ignored an IV given in a call of its
 own

Without EVP_CIPH_ALWAYS_CALL_INIT a custom-IV cipher's init is only called
when a key is passed, so an IV set before or after the key was lost.
---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 0f9062a..76d1f30 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -304,7 +304,7 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     return 1;
 }
 
-#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
+#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_ALWAYS_CALL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
 
 #define MAGMA_MAC_WRAP_LEN 8
 #define KUZNYECHIK_MAC_WRAP_LEN 16
-- 
2.43.0


From aa37582abcc3ec0ea2d0f4848a4c8599eca013b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 11/65] fix: refuse GOST signatures of a wrong length

unpack_cp_signature() splits any buffer in two halves, so a signature
with zero-padded halves or with an odd trailing byte verified as well.
---
 gost_pmeth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 5763e9b..6036421 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -539,7 +539,12 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s = NULL;
+
+    /* pkey size of all GOST key types is the size of their signature */
+    if (!pub_key || !sig || siglen != (size_t)EVP_PKEY_size(pub_key))
+        return 0;
+    s = unpack_cp_signature(sig, siglen);
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
-- 
2.43.0


From 49a087a304b48efdabf76a08d7d442eefb93c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 12/65] fix: do not abort on a digest of unexpected length

EVP_PKEY_sign() and EVP_PKEY_verify() with a digest that is not 32 or 64
bytes long ended the process; report an error instead.
---
 gost_ec_sign.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..6fb28bf 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -194,7 +194,12 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     EC_POINT *C = NULL;
     BN_CTX *ctx;
 
-    OPENSSL_assert(dgst != NULL && eckey != NULL);
+    OPENSSL_assert(eckey != NULL);
+
+    if (dgst == NULL || (dlen != 32 && dlen != 64)) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
+        return NULL;
+    }
 
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
@@ -202,7 +207,6 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -335,7 +339,12 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
     const EC_POINT *pub_key = NULL;
     int ok = 0;
 
-    OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
+    OPENSSL_assert(sig != NULL && group != NULL);
+
+    if (dgst == NULL || (dgst_len != 32 && dgst_len != 64)) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
+        return 0;
+    }
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
@@ -371,7 +380,6 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From 570ec19b00904c324a98c7e2032269e78466d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 13/65] fix: check the room for a signature before writing it

---
 gost_pmeth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 6036421..74d9c21 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -508,6 +508,8 @@ static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
         *siglen = order;
         return 1;
     }
+    if (*siglen < (size_t)order)
+        return 0;
     unpacked_sig = gost_ec_sign(tbs, tbs_len, EVP_PKEY_get0(pkey));
     if (!unpacked_sig) {
         return 0;
-- 
2.43.0


From c1f69fd8c8b7b567044f271fbc65b68055560367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 14/65] fix: report a failed key generation

EVP_PKEY_keygen() returned success with a key without private and public
part when the random generator failed.
---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 74d9c21..d78af5f 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -447,8 +447,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -457,8 +456,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From 39c4e02c2507d8d7fd4e7c01ee4e489215dd8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 15/65] fix: use 1 as the UKM of KEG when it is all zero

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..e176d62 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -139,7 +139,7 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
 
     memset(real_ukm, 0, 16);
     if (memcmp(ukm_source, real_ukm, 16) == 0)
-        real_ukm[15] = 1;
+        real_ukm[0] = 1; /* little endian, as the rest of UKM */
     else {
         memcpy(real_ukm, ukm_source, 16);
         BUF_reverse(real_ukm, NULL, 16);
-- 
2.43.0


From e0ca9e2cd69fb47dcf042c25d2f62a7049a25863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 16/65] fix: refuse to derive a key from a missing public or
 private key

---
 gost_ec_keyx.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index e176d62..1b8a467 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -39,6 +39,15 @@ int VKO_compute_key(unsigned char *shared_key,
     int buf_len, half_len;
     int ret = 0;
 
+    if (pub_key == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_NO_PEER_KEY);
+        return 0;
+    }
+    if (priv_key == NULL || EC_KEY_get0_private_key(priv_key) == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_NO_PRIVATE_PART_OF_NON_EPHEMERAL_KEYPAIR);
+        return 0;
+    }
+
     if ((ctx = BN_CTX_secure_new()) == NULL) {
         GOSTerr(GOST_F_VKO_COMPUTE_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -178,6 +187,14 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
     }
 }
 
+/* Public point of a key, NULL if it has none */
+static const EC_POINT *gost_get0_pub_point(const EVP_PKEY *pkey)
+{
+    const EC_KEY *ec = pkey ? EVP_PKEY_get0(pkey) : NULL;
+
+    return ec ? EC_KEY_get0_public_key(ec) : NULL;
+}
+
 /*
  * EVP_PKEY_METHOD callback derive.
  * Implements VKO R 34.10-2001/2012 algorithms
@@ -210,7 +227,7 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
             return 1;
         }
         *keylen = VKO_compute_key(key,
-                                  EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
+                                  gost_get0_pub_point(peer_key),
                                   (EC_KEY *)EVP_PKEY_get0(my_key),
                                   data->shared_ukm, data->shared_ukm_size,
                                   data->vko_dgst_nid);
@@ -239,7 +256,7 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
 
             *keylen =
                 VKO_compute_key(key,
-                                EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
+                                gost_get0_pub_point(peer_key),
                                 (EC_KEY *)EVP_PKEY_get0(my_key),
                                 data->shared_ukm, 8, dgst_nid);
             return (*keylen) ? 1 : 0;
@@ -253,7 +270,7 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
             }
 
             *keylen = gost_keg(data->shared_ukm, EVP_PKEY_id(my_key),
-                               EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
+                               gost_get0_pub_point(peer_key),
                                (EC_KEY *)EVP_PKEY_get0(my_key), key);
             return (*keylen) ? 1 : 0;
         }
-- 
2.43.0


From fd317013378a87a1c53235029ab1dfef1fccdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 17/65] fix: check the room for a derived key before writing it

---
 gost_ec_keyx.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 1b8a467..8f439f0 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -222,10 +222,16 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
 
     /* VKO */
     if (data->vko_dgst_nid) {
+        size_t len = data->vko_dgst_nid == NID_id_GostR3411_2012_256? 32 : 64;
+
         if (!key) {
-            *keylen = data->vko_dgst_nid == NID_id_GostR3411_2012_256? 32 : 64;
+            *keylen = len;
             return 1;
         }
+        if (*keylen < len) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+            return 0;
+        }
         *keylen = VKO_compute_key(key,
                                   gost_get0_pub_point(peer_key),
                                   (EC_KEY *)EVP_PKEY_get0(my_key),
@@ -250,6 +256,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 32;
                 return 1;
             }
+            if (*keylen < 32) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
             EVP_PKEY_get_default_digest_nid(my_key, &dgst_nid);
             if (dgst_nid == NID_id_GostR3411_2012_512)
                 dgst_nid = NID_id_GostR3411_2012_256;
@@ -268,6 +278,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 64;
                 return 1;
             }
+            if (*keylen < 64) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
 
             *keylen = gost_keg(data->shared_ukm, EVP_PKEY_id(my_key),
                                gost_get0_pub_point(peer_key),
-- 
2.43.0


From 7e128ee08f19ca0ab8a846248a98df3fcef4d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 18/65] fix: free the ephemeral key once when key transport
 fails

---
 gost_ec_keyx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8f439f0..a7f0fe7 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -396,8 +396,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
+    if (key_is_ephemeral) {
         EVP_PKEY_free(sec_key);
+        sec_key = NULL;
+    }
     if (!key_is_ephemeral) {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
-- 
2.43.0


From 2f0568c53e057154453b4c11d5b3b4ef470b8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 19/65] fix: refuse to transport keys that are not 32 bytes
 long

---
 gost_ec_keyx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index a7f0fe7..00c3d98 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -587,6 +587,13 @@ int pkey_gost_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
                       size_t *out_len, const unsigned char *key, size_t key_len)
 {
   struct gost_pmeth_data *gctx = EVP_PKEY_CTX_get_data(pctx);
+
+  /* The transports carry 32-byte keys only, see pkey_gost_decrypt() */
+  if (out != NULL && key_len != 32) {
+      GOSTerr(GOST_F_PKEY_GOST_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+      return 0;
+  }
+
   switch (gctx->cipher_nid)
   {
     case NID_id_Gost28147_89:
-- 
2.43.0


From 89f284efcaff949a6c37061de75f579a3fe41e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 20/65] fix: do not abort on key transport fields of a wrong
 length

---
 gost_ec_keyx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 00c3d98..dcfcc8c 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -663,12 +663,16 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         goto err;
     }
 
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
-- 
2.43.0


From 665b0838ab0caf75778cc54148d1cda0d055b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 21/65] fix: require the ephemeral key of 2018 key transport to
 be on the recipient's curve

---
 gost_ec_keyx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index dcfcc8c..2bf0668 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -762,7 +762,8 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
    o  q * Q_eph is not equal to zero point.
 */
-    if (eph_key == NULL) {
+    if (eph_key == NULL || EVP_PKEY_base_id(eph_key) != pkey_nid
+        || EVP_PKEY_parameters_eq(priv, eph_key) != 1) {
        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
                GOST_R_ERROR_COMPUTING_EXPORT_KEYS);
        ret = 0;
-- 
2.43.0


From 8b04de5f5a30fb89fe43ff1493f8c43cfe50dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 22/65] fix: do not keep the UKM of one key transport message
 for the next

---
 gost_ec_keyx.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 2bf0668..ffc3e46 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -451,7 +451,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *pubk = EVP_PKEY_CTX_get0_pkey(pctx);
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(pctx);
     int pkey_nid = EVP_PKEY_base_id(pubk);
-    unsigned char expkeys[64];
+    unsigned char expkeys[64], ukm[32];
     EVP_PKEY *sec_key = NULL;
     int ret = 0;
     int mac_nid = NID_undef;
@@ -504,14 +504,18 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (data->shared_ukm_size == 0) {
-        if (RAND_bytes(data->shared_ukm, 32) <= 0) {
+        if (RAND_bytes(ukm, sizeof(ukm)) <= 0) {
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_INTERNAL_ERROR);
             goto err;
         }
-        data->shared_ukm_size = 32;
+    } else if (data->shared_ukm_size == sizeof(ukm)) {
+        memcpy(ukm, data->shared_ukm, sizeof(ukm));
+    } else {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(pubk)),
                  EVP_PKEY_get0(sec_key), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
@@ -520,7 +524,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (gost_kexp15(key, key_len, data->cipher_nid, expkeys + 32,
-                    mac_nid, expkeys + 0, data->shared_ukm + 24, iv_len,
+                    mac_nid, expkeys + 0, ukm + 24, iv_len,
                     exp_buf, &exp_len) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_CANNOT_PACK_EPHEMERAL_KEY);
         goto err;
@@ -538,7 +542,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         goto err;
     }
 
-    if (!ASN1_OCTET_STRING_set(pst->ukm, data->shared_ukm, data->shared_ukm_size)) {
+    if (!ASN1_OCTET_STRING_set(pst->ukm, ukm, sizeof(ukm))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE);
         goto err;
     }
@@ -715,6 +719,8 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     PSKeyTransport_gost *pst = NULL;
     int ret = 0;
     unsigned char expkeys[64];
+    const unsigned char *ukm;
+    size_t ukm_len;
     EVP_PKEY *eph_key = NULL;
     int pkey_nid;
     int mac_nid = NID_undef;
@@ -770,15 +776,20 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
        goto err;
     }
 
+    /* UKM set by the caller is preferred to that of the message */
     if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
-        if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
-            goto err;
-        }
+        ukm = ASN1_STRING_get0_data(pst->ukm);
+        ukm_len = ASN1_STRING_length(pst->ukm);
+    } else {
+        ukm = data->shared_ukm;
+        ukm_len = data->shared_ukm_size;
+    }
+    if (ukm_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
@@ -788,7 +799,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (gost_kimp15(ASN1_STRING_get0_data(pst->psexp),
                     ASN1_STRING_length(pst->psexp), data->cipher_nid,
-                    expkeys + 32, mac_nid, expkeys + 0, data->shared_ukm + 24,
+                    expkeys + 32, mac_nid, expkeys + 0, ukm + 24,
                     iv_len, key) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_CANNOT_UNPACK_EPHEMERAL_KEY);
         goto err;
-- 
2.43.0


From 8252689cbbacb0b38fd7c3575f860826f6e299ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:09 +0000
Subject: [PATCH 23/65] fix: keep the type of a GOST R 34.10-2001 DH key when
 decoding its parameters

---
 gost_ameth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..66feafe 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1149,7 +1149,8 @@ static int gost2001_param_decode(EVP_PKEY *pkey, const unsigned char **pder,
     nid = OBJ_obj2nid(obj);
     ASN1_OBJECT_free(obj);
 
-    return gost_decode_nid_params(pkey, NID_id_GostR3410_2001, nid);
+    /* pkey has the type the caller asked for, 2001 or 2001DH */
+    return gost_decode_nid_params(pkey, EVP_PKEY_base_id(pkey), nid);
 }
 
 /* ----------------------------------------------------------------------*/
-- 
2.43.0


From 19e63e3d1e2b8cbaadf07069abcb841f7b572857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 24/65] fix: refuse encoded keys whose curve does not fit the
 key type

---
 gost_ameth.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 66feafe..27c12ff 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -137,7 +137,16 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
                 break;
             }
         }
-        return fill_GOST_EC_params(key_ptr, param_nid);
+        if (!fill_GOST_EC_params(key_ptr, param_nid))
+            return 0;
+        /* Only keys of GOST R 34.10-2012 512 belong on 512-bit curves */
+        if ((EC_GROUP_order_bits(EC_KEY_get0_group(key_ptr)) > 256)
+            != (pkey_nid == NID_id_GostR3410_2012_512)) {
+            GOSTerr(GOST_F_DECODE_GOST_ALGOR_PARAMS,
+                    GOST_R_INCOMPATIBLE_ALGORITHMS);
+            return 0;
+        }
+        return 1;
     }
 
     return 0;
-- 
2.43.0


From f1ce8f3f6cb5e538267d37c69d45de516f8601fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 25/65] fix: refuse encoded private keys without content

---
 gost_ameth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 27c12ff..6a6040a 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -619,6 +619,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -650,7 +655,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
-- 
2.43.0


From 1558cd081c9f439f7a6e33567f5c68fc32a844f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 26/65] fix: refuse encoded private keys outside 1..q-1

---
 gost_ameth.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 6a6040a..f7edb7a 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -205,6 +205,16 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
                 ec = EC_KEY_new();
                 EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
             }
+            if (!EVP_PKEY_missing_parameters(pkey)) {
+                const BIGNUM *q = EC_GROUP_get0_order(EC_KEY_get0_group(ec));
+
+                /* The private key is a number between 1 and q - 1 */
+                if (!q || BN_is_zero(priv) || BN_is_negative(priv)
+                    || BN_cmp(priv, q) >= 0) {
+                    GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+                    return 0;
+                }
+            }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
             if (!EVP_PKEY_missing_parameters(pkey))
-- 
2.43.0


From 425b482acc6259ddfbca41f280839a23a10a6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 27/65] fix: report magma cipher parameters that cannot be read

---
 gost_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 0d13ab3..abdff68 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1496,7 +1496,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
 	c->key_meshing = 8192;
 
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
-- 
2.43.0


From 11fa672c8911c208ac59cbbe6ecbdd005ba6c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 28/65] fix: algorithm parameters of magma do not turn plain
 CTR into ACPKM, nor fit other modes

---
 gost_crypt.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index abdff68..bc3b4d4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1482,8 +1482,13 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 #define MAGMA_UKM_LEN 12
 static int magma_set_asn1_parameters (EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 {
-  struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-	c->key_meshing = 8192;
+	struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+	/* The UKM holds a CTR mode IV */
+	if (EVP_CIPHER_CTX_mode(ctx) != EVP_CIPH_CTR_MODE)
+		return 0;
+	if (EVP_CIPHER_CTX_nid(ctx) != NID_magma_ctr)
+		c->key_meshing = 8192;
 
 	return gost2015_set_asn1_params(params, EVP_CIPHER_CTX_original_iv(ctx), 4,
 		c->kdf_seed);
@@ -1491,10 +1496,11 @@ static int magma_set_asn1_parameters (EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
 static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 {
-  struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+	struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 	unsigned char iv[16];
 
-	c->key_meshing = 8192;
+	if (EVP_CIPHER_CTX_mode(ctx) != EVP_CIPH_CTR_MODE)
+		return -1;
 
 	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
@@ -1502,7 +1508,8 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
 	memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, sizeof(iv));
 	/* Key meshing 8 kb*/
-	c->key_meshing = 8192;
+	if (EVP_CIPHER_CTX_nid(ctx) != NID_magma_ctr)
+		c->key_meshing = 8192;
 
 	return 1;
 }
-- 
2.43.0


From d62c5f808cf52a8bf32c0ce6d360db566b6ea1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 29/65] fix: do not dereference GOST 28147-89 parameters that
 failed to decode

---
 gost_crypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index bc3b4d4..e8c0633 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1450,6 +1450,10 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
+    if (gcp == NULL) {
+        GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS, ERR_R_ASN1_LIB);
+        return -1;
+    }
 
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
-- 
2.43.0


From cb51cdb19fbb2a2f705172fd3602aa955506113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 30/65] fix: write the IV of the message into GOST 28147-89
 parameters, not the feedback register

---
 gost_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index e8c0633..904f743 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1402,7 +1402,7 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
         return 0;
     }
     if (!ASN1_OCTET_STRING_set
-        (gcp->iv, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx))) {
+        (gcp->iv, EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx))) {
         GOST_CIPHER_PARAMS_free(gcp);
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
-- 
2.43.0


From 387524e234aac3e18be2e74342b644d07ef58f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 31/65] fix: refuse parameters with foreign S-boxes for
 magma-cbc

---
 gost_crypt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 904f743..dd16799 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1470,7 +1470,10 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
         return -1;
     }
 
-    if (!gost_cipher_set_param(c, nid)) {
+    /* The S-boxes of Magma are not a parameter */
+    if ((EVP_CIPHER_CTX_nid(ctx) == NID_magma_cbc
+         && nid != NID_id_tc26_gost_28147_param_Z)
+        || !gost_cipher_set_param(c, nid)) {
         GOST_CIPHER_PARAMS_free(gcp);
         return -1;
     }
-- 
2.43.0


From 818b2e8d4ebb44ab4f4dfc6b6bf093410489bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 32/65] fix: GOST 28147-89 parameters read after the key was
 set take effect

---
 gost_crypt.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index dd16799..ff2f003 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1477,9 +1477,7 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
         GOST_CIPHER_PARAMS_free(gcp);
         return -1;
     }
-    /*XXX missing non-const accessor */
-    memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), gcp->iv->data,
-           EVP_CIPHER_CTX_iv_length(ctx));
+    gost_cipher_new_message(ctx, gcp->iv->data);
 
     GOST_CIPHER_PARAMS_free(gcp);
 
-- 
2.43.0


From d6d1326ea041a91f7a8f607545a44ad8d56a2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 33/65] fix: refuse KDF tree lengths that the counter cannot
 express

---
 gost_keyexpimp.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 76d1f30..dd1306f 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -212,16 +212,21 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
     uint32_t len_repr = be32(keyout_len * 8);
     size_t len_repr_len = 4;
 
+    /* The length and the counter take at most 4 bytes */
+    if ((keyout_len == 0) || (keyout_len % 32 != 0)
+        || (keyout_len > UINT32_MAX / 8)
+        || (representation < 1) || (representation > 4)
+        || (keyout_len / 32 > (((uint64_t)1 << (8 * representation)) - 1))) {
+        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        return 0;
+    }
+
     ctx = HMAC_CTX_new();
     if (ctx == NULL) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_MALLOC_FAILURE);
         return 0;
     }
 
-    if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
-        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
-        return 0;
-    }
     iters = keyout_len / 32;
 
     len_ptr = (unsigned char *)&len_repr;
-- 
2.43.0


From a4418b6922bab54eff2c4493ed1ec74b68fbdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 34/65] fix: handle memory exhaustion when decoding keys

---
 gost_ameth.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index f7edb7a..80206e8 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -203,7 +203,10 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
             EC_KEY *ec = EVP_PKEY_get0(pkey);
             if (!ec) {
                 ec = EC_KEY_new();
-                EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
+                if (!EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
+                    EC_KEY_free(ec);
+                    return 0;
+                }
             }
             if (!EVP_PKEY_missing_parameters(pkey)) {
                 const BIGNUM *q = EC_GROUP_get0_order(EC_KEY_get0_group(ec));
@@ -591,10 +594,16 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
             BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
             BN_CTX *ctx = BN_CTX_secure_new();
 
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask && ctx
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
             BN_free(mask);
+            if (!ok) {
+                BN_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
@@ -967,7 +976,8 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key
+        || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
-- 
2.43.0


From b4af95c3614161e0c6477b23e8d0e56e098af31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 35/65] fix: handle memory exhaustion when encoding keys

---
 gost_ameth.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 80206e8..06ad83d 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -746,12 +746,24 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         ASN1_STRING_free(octet);
         OPENSSL_secure_free(buf);
 
-        return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                               priv_buf, priv_len);
+        if (priv_len <= 0
+            || !PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                                priv_buf, priv_len)) {
+            if (priv_len > 0)
+                OPENSSL_clear_free(priv_buf, priv_len);
+            ASN1_STRING_free(params);
+            return 0;
+        }
+        return 1;
     }
 
-    return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                           buf, key_len);
+    if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                         buf, key_len)) {
+        OPENSSL_secure_free(buf);
+        ASN1_STRING_free(params);
+        return 0;
+    }
+    return 1;
 }
 
 /* --------- printing keys --------------------------------*/
@@ -1011,6 +1023,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
+    if (!params)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1073,9 +1087,13 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0
+        || !X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret)) {
+        OPENSSL_free(buf);
+        ASN1_STRING_free(params);
         return 0;
-    return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
+    }
+    return 1;
 }
 
 static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
-- 
2.43.0


From 6ac60bebe1054d6f8855a3eead81f4423d0d795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 36/65] fix: report keys that could not be printed completely

---
 gost_ameth.c | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 06ad83d..60693ab 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -773,15 +773,17 @@ static int print_gost_priv(BIO *out, const EVP_PKEY *pkey, int indent)
 
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Private key: ");
+    if (BIO_printf(out, "Private key: ") <= 0)
+        return 0;
     key = gost_get0_priv_key(pkey);
-    if (!key)
-        BIO_printf(out, "<undefined>");
-    else
-        BN_print(out, key);
-    BIO_printf(out, "\n");
+    if (!key) {
+        if (BIO_printf(out, "<undefined>") <= 0)
+            return 0;
+    } else if (!BN_print(out, key)) {
+        return 0;
+    }
 
-    return 1;
+    return BIO_printf(out, "\n") > 0;
 }
 
 static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
@@ -813,17 +815,16 @@ static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
     }
     if (!BIO_indent(out, indent, 128))
         goto err;
-    BIO_printf(out, "Public key:\n");
-    if (!BIO_indent(out, indent + 3, 128))
-        goto err;
-    BIO_printf(out, "X:");
-    BN_print(out, X);
-    BIO_printf(out, "\n");
-    if (!BIO_indent(out, indent + 3, 128))
+    if (BIO_printf(out, "Public key:\n") <= 0
+        || !BIO_indent(out, indent + 3, 128)
+        || BIO_printf(out, "X:") <= 0
+        || !BN_print(out, X)
+        || BIO_printf(out, "\n") <= 0
+        || !BIO_indent(out, indent + 3, 128)
+        || BIO_printf(out, "Y:") <= 0
+        || !BN_print(out, Y)
+        || BIO_printf(out, "\n") <= 0)
         goto err;
-    BIO_printf(out, "Y:");
-    BN_print(out, Y);
-    BIO_printf(out, "\n");
     ok = 1;
  err:
     BN_CTX_end(ctx);
@@ -844,9 +845,7 @@ static int print_gost_ec_param(BIO *out, const EVP_PKEY *pkey, int indent)
     param_nid = EC_GROUP_get_curve_name(group);
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid));
-
-    return 1;
+    return BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid)) > 0;
 }
 
 static int print_gost_ec(BIO *out, const EVP_PKEY *pkey, int indent,
-- 
2.43.0


From 470c6464443565b40decb17f2311d31c0ee58343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 37/65] fix: keep the engine parameter when a new value cannot
 be stored

---
 gost_ctl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..494b798 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -60,6 +60,7 @@ const char *get_gost_engine_param(int param)
 int gost_set_default_param(int param, const char *value)
 {
     const char *tmp;
+    char *copy;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return 0;
     tmp = getenv(gost_envnames[param]);
@@ -70,8 +71,11 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    copy = BUF_strdup(tmp);
+    if (tmp != NULL && copy == NULL)
+        return 0;
     OPENSSL_free(gost_params[param]);
-    gost_params[param] = BUF_strdup(tmp);
+    gost_params[param] = copy;
 
     return 1;
 }
-- 
2.43.0


From cf1b6b6f64884dc1ad429cd02ac755a8c62d971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 38/65] fix: MAC contexts survive failed copies and report
 failures of the MAC

---
 gost_omac.c       | 32 ++++++++++++++++++++++----------
 gost_omac_acpkm.c | 33 ++++++++++++++++++++++++---------
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..a7e3470 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -18,6 +18,7 @@
 
 typedef struct omac_ctx {
     CMAC_CTX *cmac_ctx;
+    const void *owner;          /* this structure, if cmac_ctx is its own */
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -41,6 +42,8 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+    if (c->owner == c)
+        CMAC_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
@@ -90,7 +93,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (!CMAC_Final(c->cmac_ctx, mac, &mac_size))
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -109,15 +113,19 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     } else {
         return 0;
     }
+    /* EVP_MD_CTX_copy_ex() has copied the pointer of the other context */
+    if (c_to->owner != c_to) {
+        c_to->cmac_ctx = NULL;
+        c_to->owner = c_to;
+    }
     if (!c_from->cmac_ctx) {
-        if (c_to->cmac_ctx) {
-            CMAC_CTX_free(c_to->cmac_ctx);
-            c_to->cmac_ctx = NULL;
-        }
+        CMAC_CTX_free(c_to->cmac_ctx);
+        c_to->cmac_ctx = NULL;
         return 1;
     }
-    if (c_to->cmac_ctx == c_from->cmac_ctx) {
-        c_to->cmac_ctx = CMAC_CTX_new();
+    if (!c_to->cmac_ctx && !(c_to->cmac_ctx = CMAC_CTX_new())) {
+        c_to->key_set = 0;
+        return 0;
     }
     return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
 }
@@ -128,7 +136,8 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_CTX_free(c->cmac_ctx);
+        if (c->owner == c)
+            CMAC_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_CTX));
     }
     return 1;
@@ -139,7 +148,10 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
-    CMAC_CTX_free(c->cmac_ctx);
+    if (c->owner == c)
+        CMAC_CTX_free(c->cmac_ctx);
+    c->owner = c;
+    c->key_set = 0;
     c->cmac_ctx = CMAC_CTX_new();
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_KEY, ERR_R_MALLOC_FAILURE);
@@ -150,7 +162,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 /* Called directly by gost_kexp15() */
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..c44f24d 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -301,6 +301,7 @@ static int CMAC_ACPKM_Final(CMAC_ACPKM_CTX *ctx, unsigned char *out,
 
 typedef struct omac_acpkm_ctx {
     CMAC_ACPKM_CTX *cmac_ctx;
+    const void *owner;          /* this structure, if cmac_ctx is its own */
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -311,6 +312,8 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+    if (c->owner == c)
+        CMAC_ACPKM_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
@@ -371,18 +374,22 @@ static int omac_acpkm_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     } else {
         return 0;
     }
+    /* EVP_MD_CTX_copy_ex() has copied the pointer of the other context */
+    if (c_to->owner != c_to) {
+        c_to->cmac_ctx = NULL;
+        c_to->owner = c_to;
+    }
     if (!c_from->cmac_ctx) {
-        if (c_to->cmac_ctx) {
-            CMAC_ACPKM_CTX_free(c_to->cmac_ctx);
-            c_to->cmac_ctx = NULL;
-        }
+        CMAC_ACPKM_CTX_free(c_to->cmac_ctx);
+        c_to->cmac_ctx = NULL;
         return 1;
     }
-    if ((c_to->cmac_ctx == c_from->cmac_ctx) || (c_to->cmac_ctx == NULL))  {
-        c_to->cmac_ctx = CMAC_ACPKM_CTX_new();
+    if (!c_to->cmac_ctx && !(c_to->cmac_ctx = CMAC_ACPKM_CTX_new())) {
+        c_to->key_set = 0;
+        return 0;
     }
 
-    return (c_to->cmac_ctx) ? CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx) : 0;
+    return CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
 }
 
 /* Clean up imit ctx */
@@ -391,7 +398,8 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_ACPKM_CTX_free(c->cmac_ctx);
+        if (c->owner == c)
+            CMAC_ACPKM_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_ACPKM_CTX));
     }
     return 1;
@@ -402,6 +410,10 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
+    if (c->owner == c)
+        CMAC_ACPKM_CTX_free(c->cmac_ctx);
+    c->owner = c;
+    c->key_set = 0;
     c->cmac_ctx = CMAC_ACPKM_CTX_new();
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_ACPKM_KEY, ERR_R_MALLOC_FAILURE);
@@ -412,7 +424,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
@@ -438,6 +450,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 && (cipher =
                     EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
+                goto set_key_end;
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
@@ -466,6 +479,8 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
             if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
+            if (!c->cmac_ctx)
+                return 0;
             c->cmac_ctx->section_size = arg;
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
-- 
2.43.0


From f25ea681a021571d06c9dfd5088063b52ce23951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:17 +0000
Subject: [PATCH 39/65] fix: clean up a MAC context that got no memory

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index ff2f003..14adf60 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1683,7 +1683,8 @@ static int gost_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
 /* Clean up imit ctx */
 static int gost_imit_cleanup(EVP_MD_CTX *ctx)
 {
-    memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
+    if (EVP_MD_CTX_md_data(ctx))
+        memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
     return 1;
 }
 /* vim: set expandtab cinoptions=\:0,l1,t0,g0,(0 sw=4 : */
-- 
2.43.0


From f9ad0269c798f8c4386867da4f677c5f57949846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:17 +0000
Subject: [PATCH 40/65] fix: report a message whose MAC could not be computed

---
 gost_gost2015.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index c04458b..5e3ee8b 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -23,7 +23,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +33,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
-- 
2.43.0


From 4a594c7268777939e79067c26c9313571d5964a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 41/65] fix: choose the cipher of a MAC without comparing names
 that may be unknown

---
 gost_omac.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index a7e3470..08122ba 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -175,16 +175,16 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_SET_KEY:
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
-            const EVP_MD *md = EVP_MD_CTX_md(ctx);
             EVP_CIPHER *cipher = NULL;
             int ret = 0;
 
-            if (c->cipher_name == NULL) {
-                if (EVP_MD_is_a(md, SN_magma_mac))
-                    c->cipher_name = SN_magma_cbc;
-                else if (EVP_MD_is_a(md, SN_grasshopper_mac))
-                    c->cipher_name = SN_grasshopper_cbc;
+            /* This sets the cipher name, too */
+            if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
+                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                goto set_key_end;
             }
+            EVP_MD_CTX_set_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
+
             if ((cipher =
                  (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name)) == NULL
                 && (cipher =
@@ -193,12 +193,6 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 goto set_key_end;
             }
 
-            if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
-                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
-                goto set_key_end;
-            }
-            EVP_MD_CTX_set_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
-
             if (c->key_set) {
                 GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_BAD_ORDER);
                 goto set_key_end;
-- 
2.43.0


From 5245578061fa709a46c5653dbe29e28dece22a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 42/65] fix: report signatures that cannot be unpacked for want
 of memory

---
 gost_pmeth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index d78af5f..5208a0a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -529,7 +529,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
-    ECDSA_SIG_set0(sig, r, s);
+    if (!r || !s || !ECDSA_SIG_set0(sig, r, s)) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(r);
+        BN_free(s);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     return sig;
 }
 
-- 
2.43.0


From 4e9a570d03876dc354ab8ff7a67b848a70a8b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 43/65] fix: handle memory exhaustion with the MAC attribute
 and release its identifier

---
 gost_gost2015.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 5e3ee8b..e1ba6b2 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -136,23 +136,26 @@ int gost2015_process_unprotected_attributes(
     STACK_OF(X509_ATTRIBUTE) *attrs,
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
+    ASN1_OBJECT *obj = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+    int ret = -1;
+
+    if (obj == NULL)
+        return -1;
     if (encryption == 0) /*Decrypting*/ {
         ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+            obj, -3, V_ASN1_OCTET_STRING);
 
-        if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
-            return -1;
-
-        memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
-    } else {
-        if (attrs == NULL)
-            return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+        if (osExpectedMac && osExpectedMac->length == (int)mac_len) {
+            memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
+            ret = 1;
+        }
+    } else if (attrs != NULL
+               && X509at_add1_attr_by_OBJ(&attrs, obj,
+                      V_ASN1_OCTET_STRING, final_tag, mac_len) != NULL) {
+        ret = 1;
     }
-    return 1;
+    ASN1_OBJECT_free(obj);
+    return ret;
 }
 
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
-- 
2.43.0


From 9a6a929006b1947f7952b2d46a5609f21f401973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:35 +0000
Subject: [PATCH 44/65] fix: forget the names of the methods that an unloaded
 engine has freed

---
 gost_eng.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index 7ca5523..ef0a755 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -302,10 +302,21 @@ static void free_NIDs();
 static int gost_engine_destroy(ENGINE* e) {
     int i;
 
-    for (i = 0; i < OSSL_NELEM(gost_digest_array); i++)
+    /* The methods are known by name since EVP_add_digest(), EVP_add_cipher() */
+    for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
+        OBJ_NAME_remove(OBJ_nid2sn(gost_digest_array[i]->nid),
+                        OBJ_NAME_TYPE_MD_METH);
+        OBJ_NAME_remove(OBJ_nid2ln(gost_digest_array[i]->nid),
+                        OBJ_NAME_TYPE_MD_METH);
         GOST_deinit_digest(gost_digest_array[i]);
-    for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++)
+    }
+    for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++) {
+        OBJ_NAME_remove(OBJ_nid2sn(gost_cipher_array[i]->nid),
+                        OBJ_NAME_TYPE_CIPHER_METH);
+        OBJ_NAME_remove(OBJ_nid2ln(gost_cipher_array[i]->nid),
+                        OBJ_NAME_TYPE_CIPHER_METH);
         GOST_deinit_cipher(gost_cipher_array[i]);
+    }
 
     gost_param_free();
 
-- 
2.43.0


From 713e4c34e264b18b6e057066398721175797b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 45/65] fix: gostsum reads its list line by line and fails on
 lines it cannot use

---
 gostsum.c | 56 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index b61215c..297f479 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -29,6 +29,10 @@ typedef SSIZE_T ssize_t;
 #define BUF_SIZE 262144
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode);
 int hash_stream(gost_hash_ctx * ctx, int fd, char *sum);
+/*
+ * Reads a line of the list: returns 1 for a line with a digest and a file
+ * name, 0 at the end of the list, -1 for a line that is something else.
+ */
 int get_line(FILE *f, char *hash, char *filename);
 void help()
 {
@@ -86,7 +90,7 @@ int main(int argc, char **argv)
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
         char inhash[65], calcsum[65], filename[PATH_MAX];
-        int failcount = 0, count = 0;
+        int failcount = 0, count = 0, found;
         errors = 0;
         if (check_file == stdin && optind < argc) {
             check_file = fopen(argv[optind], "r");
@@ -95,8 +99,12 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((found = get_line(check_file, inhash, filename)) != 0) {
             count++;
+            if (found < 0) {
+                errors++;
+                continue;
+            }
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
                 continue;
@@ -116,6 +124,10 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file)) {
+            perror("cannot read the list");
+            failcount++;
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
@@ -191,23 +203,39 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
 
 int get_line(FILE *f, char *hash, char *filename)
 {
-    int i;
-    if (fread(hash, 1, 64, f) < 64)
+    /* digest, space, file name, end of line */
+    char line[64 + 1 + PATH_MAX + 2];
+    int i, c, len;
+
+    if (!fgets(line, sizeof(line), f))
         return 0;
-    hash[64] = 0;
+    len = strlen(line);
+    if (len == 0 || line[len - 1] != '\n') {
+        /* The rest of a line that is too long, or has a zero byte */
+        c = fgetc(f);
+        if (c != EOF) {
+            while (c != '\n' && c != EOF)
+                c = fgetc(f);
+            fprintf(stderr, "Malformed input line\n");
+            return -1;
+        }
+    }
+    while (len > 0 && (line[len - 1] == '\n' || line[len - 1] == '\r'))
+        line[--len] = 0;
     for (i = 0; i < 64; i++) {
-        if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
-            || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
-            fprintf(stderr, "Not a hash value '%s'\n", hash);
-            return 0;
+        if (line[i] < '0' || (line[i] > '9' && line[i] < 'A')
+            || (line[i] > 'F' && line[i] < 'a') || line[i] > 'f') {
+            fprintf(stderr, "Not a hash value '%.64s'\n", line);
+            return -1;
         }
+        hash[i] = line[i] >= 'A' && line[i] <= 'F' ? line[i] - 'A' + 'a'
+            : line[i];
     }
-    if (fgetc(f) != ' ') {
+    hash[64] = 0;
+    if (line[64] != ' ' || line[65] == 0 || len - 65 >= PATH_MAX) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    strcpy(filename, line + 65);
     return 1;
 }
-- 
2.43.0


From a29f9022cf45a7a3a2028274ace80259b5da9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 46/65] fix: gostsum and gost12sum report digests that could
 not be written

---
 gost12sum.c | 6 +++++-
 gostsum.c   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..3aef09a 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -197,7 +197,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(fflush(stdout) ? 1 : 0);
     } else {
         for (i = optind; i < argc; i++) {
             char sum[MAX_HASH_TXT_BYTES + 1];
@@ -208,6 +208,10 @@ int main(int argc, char **argv)
             }
         }
     }
+    if (fflush(stdout) || ferror(stdout)) {
+        perror("stdout");
+        errors++;
+    }
     exit(errors ? 1 : 0);
 }
 
diff --git a/gostsum.c b/gostsum.c
index 297f479..03c0620 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -153,7 +153,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(fflush(stdout) ? 1 : 0);
     }
     for (i = optind; i < argc; i++) {
         char sum[65];
@@ -163,6 +163,10 @@ int main(int argc, char **argv)
             printf("%s %s\n", sum, argv[i]);
         }
     }
+    if (fflush(stdout) || ferror(stdout)) {
+        perror("stdout");
+        errors++;
+    }
     exit(errors ? 1 : 0);
 }
 
-- 
2.43.0


From ca40f95bea2e19690cf9b911146b1492fa5135be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 47/65] fix: gost12sum fails on list lines it cannot use
 instead of skipping them

---
 gost12sum.c | 69 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index 3aef09a..93f45f7 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -35,7 +35,7 @@ typedef unsigned char byte;
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode,
               int hashsize);
 int hash_stream(gost_hash_ctx * ctx, int fd, char *sum, int hashsize);
-int get_line(FILE *f, char *hash, char *filename, int verbose, int *size);
+int get_line(FILE *f, char *hash, char *filename, int *size);
 
 void help()
 {
@@ -129,10 +129,10 @@ int main(int argc, char **argv)
             }
         }
         while (get_line
-               (check_file, inhash, filename, verbose, &expected_hash_size)) {
+               (check_file, inhash, filename, &expected_hash_size)) {
             int error = 0;
             if (expected_hash_size == 0) {
-                fprintf(stderr, "%s: invalid hash length\n", filename);
+                fprintf(stderr, "%s: not a line of a digest list\n", filename);
                 errors++;
                 count++;
                 continue;
@@ -161,6 +161,10 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file)) {
+            perror("cannot read the list");
+            failcount++;
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
@@ -251,53 +255,68 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum, int hashsize)
     return 1;
 }
 
-int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
+int get_line(FILE *f, char *hash, char *filename, int *size)
 {
-    int i, len;
-    char *ptr = filename;
+    /* digest, space, file name, end of line */
+    char line[MAX_HASH_TXT_BYTES + 1 + PATH_MAX + 2];
+    int i, c, len;
+    char *ptr;
     char *spacepos = NULL;
 
     while (!feof(f)) {
-        if (!fgets(filename, PATH_MAX, f))
+        if (!fgets(line, sizeof(line), f))
             return 0;
-        ptr = filename;
+        ptr = line;
+        len = strlen(line);
+        if (len == 0 || line[len - 1] != '\n') {
+            /* The rest of a line that is too long, or has a zero byte */
+            c = fgetc(f);
+            if (c != EOF) {
+                while (c != '\n' && c != EOF)
+                    c = fgetc(f);
+                goto badline;
+            }
+        }
         while (*ptr == ' ')
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
-            goto nextline;
+            continue;
 
         spacepos = strchr(ptr, ' ');
-        if (spacepos == NULL || strlen(spacepos + 1) == 0)
-            goto nextline;
+        if (spacepos == NULL || strlen(spacepos + 1) == 0
+            || strlen(spacepos + 1) >= PATH_MAX)
+            goto badline;
 
         *size = spacepos - ptr;
 
         for (i = 0; i < *size; i++) {
             if (ptr[i] < '0' || (ptr[i] > '9' && ptr[i] < 'A') ||
                 (ptr[i] > 'F' && ptr[i] < 'a') || ptr[i] > 'f') {
-                goto nextline;
+                goto badline;
             }
+            if (ptr[i] >= 'A' && ptr[i] <= 'F')
+                ptr[i] += 'a' - 'A';
         }
 
-        if (*size > 128 || ((*size != 64) && (*size != 128))) {
-            *size = 0;
-            memset(hash, 0, MAX_HASH_TXT_BYTES + 1);
-        } else {
-            memcpy(hash, ptr, *size);
-            hash[*size] = 0;
-        }
-        memmove(filename, spacepos + 1, strlen(spacepos));
+        if ((*size != 64) && (*size != 128))
+            goto badline;
+
+        memcpy(hash, ptr, *size);
+        hash[*size] = 0;
+        strcpy(filename, spacepos + 1);
 
         *size /= 2;
         return 1;
- nextline:
-        if (verbose)
-            printf("Skipping line %s\n", filename);
     }
     return 0;
+ badline:
+    /* To be reported as a line that cannot be checked */
+    *size = 0;
+    snprintf(filename, PATH_MAX, "%.*s", PATH_MAX - 1, ptr);
+    return 1;
 }
-- 
2.43.0


From 04b561a82ee9f15b71259ad99c5c0e270e91ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 48/65] fix: gost12sum -x does not look before the start of an
 empty line

---
 gost12sum.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index 93f45f7..e50627b 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -179,20 +179,27 @@ int main(int argc, char **argv)
         exit((failcount || errors) ? 1 : 0);
     } else if (filenames_from_stdin) {
         char sum[MAX_HASH_TXT_BYTES + 1];
-        char filename[PATH_MAX + 1], *end;
+        char filename[PATH_MAX + 2];
+        size_t len;
         while (!feof(stdin)) {
-            if (!fgets(filename, PATH_MAX, stdin))
+            if (!fgets(filename, sizeof(filename), stdin))
                 break;
-            for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            len = strlen(filename);
+            while (len > 0 && (filename[len - 1] == '\n'
+                               || filename[len - 1] == '\r'))
+                filename[--len] = 0;
+            if (len == 0)
+                continue;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
                 printf("%s %s\n", sum, filename);
             }
         }
+        if (ferror(stdin)) {
+            perror("stdin");
+            errors++;
+        }
 
     } else if (optind == argc) {
         char sum[MAX_HASH_TXT_BYTES + 1];
-- 
2.43.0


From 01b3d4ce722eaf5776815d275660796709f24014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 49/65] fix: cleanse MAC keys before releasing their memory

---
 gost_ameth.c |  2 +-
 gost_pmeth.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 60693ab..0fb0f27 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1130,7 +1130,7 @@ static int pkey_size_gost(const EVP_PKEY *pk)
 /* ---------------------- ASN1 METHOD for GOST MAC  -------------------*/
 static void mackey_free_gost(EVP_PKEY *pk)
 {
-    OPENSSL_free(EVP_PKEY_get0(pk));
+    OPENSSL_clear_free(EVP_PKEY_get0(pk), 32);
 }
 
 static int mac_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
diff --git a/gost_pmeth.c b/gost_pmeth.c
index 5208a0a..80ee0fd 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -640,7 +640,7 @@ static void pkey_gost_mac_cleanup(EVP_PKEY_CTX *ctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
     if (data)
-        OPENSSL_free(data);
+        OPENSSL_clear_free(data, sizeof(*data));
 }
 
 static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
@@ -756,11 +756,11 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            OPENSSL_clear_free(keybuf, keybuf ? keylen : 0);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
@@ -899,11 +899,11 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            OPENSSL_clear_free(keybuf, keybuf ? keylen : 0);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
-- 
2.43.0


From 5f5a9398cf39618a555520558752043ab2e705b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 50/65] fix: cleanse the shared point before releasing its
 memory

---
 gost_ec_keyx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index ffc3e46..dfc4edc 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -129,7 +129,8 @@ int VKO_compute_key(unsigned char *shared_key,
     BN_CTX_free(ctx);
     EC_POINT_free(pnt);
     EVP_MD_CTX_free(mdctx);
-    OPENSSL_free(databuf);
+    if (databuf)
+        OPENSSL_clear_free(databuf, buf_len);
 
     return ret;
 }
-- 
2.43.0


From 4d0e9436eb7ec415ad7906a56a748391badaafcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:29 +0000
Subject: [PATCH 51/65] fix: cleanse private keys when decoding and encoding
 them

---
 gost_ameth.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 0fb0f27..33073d7 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -585,7 +585,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
 
         q = BN_new();
         if (!q || !group || EC_GROUP_get_order(group, q, NULL) <= 0) {
-            BN_free(pknum_masked);
+            BN_clear_free(pknum_masked);
             pknum_masked = NULL;
             goto end;
         }
@@ -598,9 +598,9 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
                 && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
-            BN_free(mask);
+            BN_clear_free(mask);
             if (!ok) {
-                BN_free(pknum_masked);
+                BN_clear_free(pknum_masked);
                 pknum_masked = NULL;
                 goto end;
             }
@@ -613,6 +613,12 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
     return pknum_masked;
 }
 
+static void masked_gost_key_clear_free(MASKED_GOST_KEY *mgk)
+{
+    OPENSSL_cleanse(mgk->masked_priv_key->data, mgk->masked_priv_key->length);
+    MASKED_GOST_KEY_free(mgk);
+}
+
 static int priv_decode_gost(EVP_PKEY *pk,
                             const PKCS8_PRIV_KEY_INFO *p8inf)
 {
@@ -651,12 +657,12 @@ static int priv_decode_gost(EVP_PKEY *pk,
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
         if (!s || ((s->length != 32) && (s->length != 64))) {
-            ASN1_STRING_free(s);
+            ASN1_STRING_clear_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
         pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
-        ASN1_STRING_free(s);
+        ASN1_STRING_clear_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
         if (!priv_key) {
@@ -664,7 +670,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
             return 0;
         }
         pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
-        ASN1_INTEGER_free(priv_key);
+        ASN1_STRING_clear_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
 
@@ -675,7 +681,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
 
         priv_len = mgk->masked_priv_key->length;
         if (priv_len <= 0 || priv_len % expected_key_len) {
-            MASKED_GOST_KEY_free(mgk);
+            masked_gost_key_clear_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
@@ -683,7 +689,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         pk_num = unmask_priv_key(pk, mgk->masked_priv_key->data,
                                  expected_key_len,
                                  priv_len / expected_key_len - 1);
-        MASKED_GOST_KEY_free(mgk);
+        masked_gost_key_clear_free(mgk);
     } else {
         GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
         return 0;
@@ -695,7 +701,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
     }
 
     ret = gost_set_priv_key(pk, pk_num);
-    BN_free(pk_num);
+    BN_clear_free(pk_num);
     return ret;
 }
 
@@ -715,13 +721,13 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_secure_clear_free(buf, key_len);
         return 0;
     }
 
     params = encode_gost_algor_params(pk);
     if (!params) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_secure_clear_free(buf, key_len);
         return 0;
     }
 
@@ -737,14 +743,14 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         int priv_len = 0;
         unsigned char *priv_buf = NULL;
         if (!octet || !ASN1_OCTET_STRING_set(octet, buf, key_len)) {
-            ASN1_STRING_free(octet);
+            ASN1_STRING_clear_free(octet);
             ASN1_STRING_free(params);
-            OPENSSL_secure_free(buf);
+            OPENSSL_secure_clear_free(buf, key_len);
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
-        ASN1_STRING_free(octet);
-        OPENSSL_secure_free(buf);
+        ASN1_STRING_clear_free(octet);
+        OPENSSL_secure_clear_free(buf, key_len);
 
         if (priv_len <= 0
             || !PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
@@ -759,7 +765,7 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
                          buf, key_len)) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_secure_clear_free(buf, key_len);
         ASN1_STRING_free(params);
         return 0;
     }
-- 
2.43.0


From 8d8b60c7520b6dc64a13fe4346b4b3bf81e4af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:00 +0000
Subject: [PATCH 52/65] fix: cleanse the private key made by key generation

---
 gost_ec_sign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 6fb28bf..ce6bbcc 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -643,7 +643,7 @@ int gost_ec_keygen(EC_KEY *ec)
     ok = 1;
  end:
     if (d)
-        BN_free(d);
+        BN_clear_free(d);
     if (order)
         BN_free(order);
 
-- 
2.43.0


From 986ce80637b06081aee9662016e0e2bcbf8affe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:01 +0000
Subject: [PATCH 53/65] fix: set up shared groups and parameters under a lock

---
 gost_ctl.c     | 45 ++++++++++++++++++++++++++++++++++++---------
 gost_ec_sign.c | 13 ++++++++++++-
 gost_eng.c     |  4 +++-
 gost_lcl.h     |  6 ++++++
 4 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 494b798..fee4c40 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -18,6 +18,34 @@ static char *gost_params[GOST_PARAM_MAX + 1] = { NULL };
 static const char *gost_envnames[] =
     { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
 
+/* Serialises access to what is set up at first use */
+static CRYPTO_RWLOCK *gost_shared = NULL;
+
+int gost_shared_new(void)
+{
+    if (gost_shared == NULL)
+        gost_shared = CRYPTO_THREAD_lock_new();
+    return gost_shared != NULL;
+}
+
+void gost_shared_free(void)
+{
+    CRYPTO_THREAD_lock_free(gost_shared);
+    gost_shared = NULL;
+}
+
+void gost_shared_lock(void)
+{
+    if (gost_shared != NULL)
+        CRYPTO_THREAD_write_lock(gost_shared);
+}
+
+void gost_shared_unlock(void)
+{
+    if (gost_shared != NULL)
+        CRYPTO_THREAD_unlock(gost_shared);
+}
+
 void gost_param_free()
 {
     int i;
@@ -45,16 +73,15 @@ const char *get_gost_engine_param(int param)
     char *tmp;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
-    if (gost_params[param] != NULL) {
-        return gost_params[param];
-    }
-    tmp = getenv(gost_envnames[param]);
-    if (tmp) {
-        OPENSSL_free(gost_params[param]);
-        gost_params[param] = BUF_strdup(tmp);
-        return gost_params[param];
+    gost_shared_lock();
+    if (gost_params[param] == NULL) {
+        tmp = getenv(gost_envnames[param]);
+        if (tmp)
+            gost_params[param] = BUF_strdup(tmp);
     }
-    return NULL;
+    tmp = gost_params[param];
+    gost_shared_unlock();
+    return tmp;
 }
 
 int gost_set_default_param(int param, const char *value)
diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index ce6bbcc..ca379f7 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -87,7 +87,7 @@ void free_cached_groups()
  * Also fils DSA->q field with copy of EC_GROUP order field to make
  * DSA_size function work
  */
-int fill_GOST_EC_params(EC_KEY *eckey, int nid)
+static int fill_ec_params(EC_KEY *eckey, int nid)
 {
     R3410_ec_params *params = gost_nid2params(nid);
     EC_GROUP *grp = NULL;
@@ -175,6 +175,17 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     return ok;
 }
 
+/* The cached group takes the name asked for until the key has its copy */
+int fill_GOST_EC_params(EC_KEY *eckey, int nid)
+{
+    int ok;
+
+    gost_shared_lock();
+    ok = fill_ec_params(eckey, nid);
+    gost_shared_unlock();
+    return ok;
+}
+
 /*
  * Computes gost_ec signature as ECDSA_SIG structure
  *
diff --git a/gost_eng.c b/gost_eng.c
index ef0a755..a0bec4d 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -327,6 +327,7 @@ static int gost_engine_destroy(ENGINE* e) {
     }
 
     free_cached_groups();
+    gost_shared_free();
     free_NIDs();
 
 # ifndef BUILDING_GOST_PROVIDER
@@ -417,7 +418,8 @@ int populate_gost_engine(ENGINE* e) {
     }
     if (!ENGINE_set_destroy_function(e, gost_engine_destroy)
         || !ENGINE_set_init_function(e, gost_engine_init)
-        || !ENGINE_set_finish_function(e, gost_engine_finish)) {
+        || !ENGINE_set_finish_function(e, gost_engine_finish)
+        || !gost_shared_new()) {
         goto end;
     }
 
diff --git a/gost_lcl.h b/gost_lcl.h
index 10a610d..e348fab 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -46,6 +46,12 @@ extern R3410_ec_params R3410_2001_paramset[],
 
 void free_cached_groups(void);
 
+/* Lock for what is set up at first use, there while the engine is bound */
+int gost_shared_new(void);
+void gost_shared_free(void);
+void gost_shared_lock(void);
+void gost_shared_unlock(void);
+
 extern const ENGINE_CMD_DEFN gost_cmds[];
 int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void));
 const char *get_gost_engine_param(int param);
-- 
2.43.0


From 218041d0c38e458b8529e1f013231e499afc5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:55 +0000
Subject: [PATCH 54/65] fix: provider: a failed or incomplete copy of a context
 is no copy

---
 gost_prov_cipher.c | 10 ++++++++--
 gost_prov_digest.c | 10 ++++++++--
 gost_prov_mac.c    | 12 ++++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index ce9665e..6d1b78e 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -55,6 +55,8 @@ static void cipher_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->cipher here.
      * That will be done by the provider teardown, via
@@ -90,8 +92,12 @@ static void *cipher_dupctx(void *vsrc)
     GOST_CTX *dst =
         cipher_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_CIPHER_CTX_copy(dst->cctx, src->cctx);
+    if (dst != NULL
+        && EVP_CIPHER_CTX_cipher(src->cctx) != NULL
+        && EVP_CIPHER_CTX_copy(dst->cctx, src->cctx) <= 0) {
+        cipher_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 79eb5a3..e99bc2a 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -51,6 +51,8 @@ static void digest_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
@@ -86,8 +88,12 @@ static void *digest_dupctx(void *vsrc)
     GOST_CTX *dst =
         digest_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL
+        && EVP_MD_CTX_md(src->dctx) != NULL
+        && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        digest_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index ab04a9c..85f47ac 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -66,6 +66,8 @@ static void mac_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
@@ -103,8 +105,14 @@ static void *mac_dupctx(void *vsrc)
     GOST_CTX *dst =
         mac_newctx(src->provctx, src->descriptor);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL) {
+        dst->mac_size = src->mac_size;
+        dst->xof_mode = src->xof_mode;
+        if (EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+            mac_freectx(dst);
+            dst = NULL;
+        }
+    }
     return dst;
 }
 
-- 
2.43.0


From 7794bc08bbd1f1f9e73ee4bb6cecaa1f80fc7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:55 +0000
Subject: [PATCH 55/65] fix: provider: terminate the dispatch tables of the
 digests and MACs

---
 gost_prov_digest.c | 1 +
 gost_prov_mac.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index e99bc2a..4df9e85 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -166,6 +166,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_DIGEST_INIT, (fptr_t)digest_init },                 \
         { OSSL_FUNC_DIGEST_UPDATE, (fptr_t)digest_update },             \
         { OSSL_FUNC_DIGEST_FINAL, (fptr_t)digest_final },               \
+        { 0, NULL },                                                    \
     }
 
 MAKE_FUNCTIONS(GostR3411_94_digest);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 85f47ac..9ac10f5 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -328,6 +328,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_MAC_SETTABLE_CTX_PARAMS,                            \
           (fptr_t)mac_settable_ctx_params },                            \
         { OSSL_FUNC_MAC_SET_CTX_PARAMS, (fptr_t)mac_set_ctx_params },   \
+        { 0, NULL },                                                    \
     }
 
 /*
-- 
2.43.0


From 424fc2878a7b5ab3136420da933f72b93ba289cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:55 +0000
Subject: [PATCH 56/65] fix: provider: hash updates of 2 GiB and more in full

---
 gost_prov_digest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 4df9e85..8e92049 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -122,7 +122,7 @@ static int digest_update(void *vgctx, const unsigned char *in, size_t inl)
 {
     GOST_CTX *gctx = vgctx;
 
-    return EVP_DigestUpdate(gctx->dctx, in, (int)inl) > 0;
+    return EVP_DigestUpdate(gctx->dctx, in, inl) > 0;
 }
 
 static int digest_final(void *vgctx,
-- 
2.43.0


From 0490d799e583a999746f096ad22fb55648402616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:55 +0000
Subject: [PATCH 57/65] fix: setting the size of a finished OMAC must not crash

---
 gost_omac.c       | 2 ++
 gost_omac_acpkm.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 08122ba..27f0659 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -220,6 +220,8 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (c->cipher_name == NULL)
+                return 0;
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_magma_cbc:
                 if (arg < 1 || arg > 8) {
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index c44f24d..920922f 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -503,6 +503,8 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (c->cipher_name == NULL)
+                return 0;
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_grasshopper_cbc:
                 if (arg < 1 || arg > 16) {
-- 
2.43.0


From e24e5eb3e8b098e2262a66e502cbac5a268f9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:21 +0000
Subject: [PATCH 58/65] fix: provider: refuse a MAC size the MAC does not have

---
 gost_prov_mac.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 9ac10f5..add6fb2 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -8,6 +8,7 @@
  *                Requires OpenSSL 3.0 for compilation                *
  **********************************************************************/
 
+#include <limits.h>
 #include <openssl/core.h>
 #include <openssl/core_dispatch.h>
 #include "gost_prov.h"
@@ -150,9 +151,10 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
     tmpoutl = *outl;
 
     if (out != NULL) {
-        /* We ignore the error for GOST MDs that don't support setting
-           the size */
-        EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN, gctx->mac_size, NULL);
+        if (gctx->mac_size > INT_MAX
+            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN,
+                               (int)gctx->mac_size, NULL) <= 0)
+            return 0;
         ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl);
     }
     if (outl != NULL)
-- 
2.43.0


From 1e037a8fc77309f8d6a248259d6a436e60b6aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:21 +0000
Subject: [PATCH 59/65] fix: provider: hand out the algorithm parameters of the
 ciphers

---
 gost_prov_cipher.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 6d1b78e..d7d9171 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -22,6 +22,7 @@
 static OSSL_FUNC_cipher_dupctx_fn cipher_dupctx;
 static OSSL_FUNC_cipher_freectx_fn cipher_freectx;
 static OSSL_FUNC_cipher_get_ctx_params_fn cipher_get_ctx_params;
+static OSSL_FUNC_cipher_gettable_ctx_params_fn cipher_gettable_ctx_params;
 static OSSL_FUNC_cipher_set_ctx_params_fn cipher_set_ctx_params;
 static OSSL_FUNC_cipher_encrypt_init_fn cipher_encrypt_init;
 static OSSL_FUNC_cipher_decrypt_init_fn cipher_decrypt_init;
@@ -133,11 +134,12 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
         ret = (algidparam = ASN1_TYPE_new()) != NULL
             && EVP_CIPHER_param_to_asn1(gctx->cctx, algidparam) > 0
             && (derlen = i2d_ASN1_TYPE(algidparam, &der)) >= 0
-            && OSSL_PARAM_set_octet_string(p, &der, (size_t)derlen);
+            && OSSL_PARAM_set_octet_string(p, der, (size_t)derlen);
 
         OPENSSL_free(der);
         ASN1_TYPE_free(algidparam);
-        return ret;
+        if (!ret)
+            return 0;
     }
     if ((p = OSSL_PARAM_locate(params, "updated-iv")) != NULL) {
         const void *iv = EVP_CIPHER_CTX_iv(gctx->cctx);
@@ -159,6 +161,19 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
     return 1;
 }
 
+/* libcrypto asks for "alg_id_param" only where it is listed */
+static const OSSL_PARAM *cipher_gettable_ctx_params(void *vgctx, void *provctx)
+{
+    static const OSSL_PARAM params[] = {
+        OSSL_PARAM_octet_string("alg_id_param", NULL, 0),
+        OSSL_PARAM_octet_string("updated-iv", NULL, 0),
+        OSSL_PARAM_octet_string(OSSL_CIPHER_PARAM_AEAD_TAG, NULL, 0),
+        OSSL_PARAM_END
+    };
+
+    return params;
+}
+
 static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
 {
     GOST_CTX *gctx = vgctx;
@@ -175,7 +190,8 @@ static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
             && EVP_CIPHER_asn1_to_param(gctx->cctx, algidparam) > 0;
 
         ASN1_TYPE_free(algidparam);
-        return ret;
+        if (!ret)
+            return 0;
     }
     if ((p = OSSL_PARAM_locate_const(params, "padding")) != NULL) {
         unsigned int pad = 0;
@@ -309,6 +325,8 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_CIPHER_DUPCTX, (fptr_t)cipher_dupctx },             \
         { OSSL_FUNC_CIPHER_FREECTX, (fptr_t)cipher_freectx },           \
         { OSSL_FUNC_CIPHER_GET_CTX_PARAMS, (fptr_t)cipher_get_ctx_params }, \
+        { OSSL_FUNC_CIPHER_GETTABLE_CTX_PARAMS,                         \
+          (fptr_t)cipher_gettable_ctx_params },                         \
         { OSSL_FUNC_CIPHER_SET_CTX_PARAMS, (fptr_t)cipher_set_ctx_params }, \
         { OSSL_FUNC_CIPHER_ENCRYPT_INIT, (fptr_t)cipher_encrypt_init }, \
         { OSSL_FUNC_CIPHER_DECRYPT_INIT, (fptr_t)cipher_decrypt_init }, \
-- 
2.43.0


From cb762e39209719072a4538f86f15a4864571b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 60/65] fix: provider: cipher parameters may come before the
 first init

---
 gost_prov_cipher.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index d7d9171..d0a95a8 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -179,6 +179,15 @@ static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
     GOST_CTX *gctx = vgctx;
     const OSSL_PARAM *p;
 
+    if (params == NULL)
+        return 1;
+
+    /* The parameters need a context that knows its cipher */
+    if (EVP_CIPHER_CTX_cipher(gctx->cctx) == NULL
+        && EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
+                             NULL, NULL, 0) <= 0)
+        return 0;
+
     if ((p = OSSL_PARAM_locate_const(params, "alg_id_param")) != NULL) {
         ASN1_TYPE *algidparam = NULL;
         const unsigned char *der = NULL;
-- 
2.43.0


From ed5be189b7cd79ccebb83304312bafa03be18c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:20 +0000
Subject: [PATCH 61/65] fix: provider: take MAC keys of the MAC's key length
 only, and restart a MAC with its key

---
 gost_prov_mac.c | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index add6fb2..252781c 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -9,6 +9,7 @@
  **********************************************************************/
 
 #include <limits.h>
+#include <string.h>
 #include <openssl/core.h>
 #include <openssl/core_dispatch.h>
 #include "gost_prov.h"
@@ -48,6 +49,10 @@ struct gost_prov_mac_ctx_st {
     /* XOF mode, where applicable */
     int xof_mode;
 
+    /* The key, for MACs of more messages under the same key */
+    unsigned char key[32];
+    int key_set;
+
     /*
      * Since existing functionality is mainly designed as EVP_MDs for
      * ENGINEs, the functions in this file are accomodated and are simply
@@ -75,7 +80,7 @@ static void mac_freectx(void *vgctx)
      * GOST_prov_deinit_digests() (defined at the bottom of this file).
      */
     EVP_MD_CTX_free(gctx->dctx);
-    OPENSSL_free(gctx);
+    OPENSSL_clear_free(gctx, sizeof(*gctx));
 }
 
 static GOST_CTX *mac_newctx(void *provctx, const GOST_DESC *descriptor)
@@ -109,6 +114,8 @@ static void *mac_dupctx(void *vsrc)
     if (dst != NULL) {
         dst->mac_size = src->mac_size;
         dst->xof_mode = src->xof_mode;
+        memcpy(dst->key, src->key, sizeof(dst->key));
+        dst->key_set = src->key_set;
         if (EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
             mac_freectx(dst);
             dst = NULL;
@@ -117,15 +124,35 @@ static void *mac_dupctx(void *vsrc)
     return dst;
 }
 
+static int mac_set_key(GOST_CTX *gctx, const unsigned char *key, size_t keylen)
+{
+    if (key == NULL || keylen != sizeof(gctx->key)
+        || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                           (int)keylen, (void *)key) <= 0)
+        return 0;
+    if (key != gctx->key)
+        memcpy(gctx->key, key, keylen);
+    gctx->key_set = 1;
+    return 1;
+}
+
 static int mac_init(void *mctx, const unsigned char *key,
                     size_t keylen, const OSSL_PARAM params[])
 {
     GOST_CTX *gctx = mctx;
 
-    return mac_set_ctx_params(gctx, params)
-        && (key == NULL
-            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                               (int)keylen, (void *)key) > 0);
+    if (key != NULL) {
+        if (!mac_set_key(gctx, key, keylen))
+            return 0;
+    } else if (gctx->key_set
+               && OSSL_PARAM_locate_const(params, "key") == NULL) {
+        /* Another message under the same key */
+        if (!mac_set_key(gctx, gctx->key, sizeof(gctx->key)))
+            return 0;
+    }
+
+    /* The parameters apply to the MAC that the key starts */
+    return mac_set_ctx_params(gctx, params);
 }
 
 static int mac_update(void *mctx, const unsigned char *in, size_t inl)
@@ -238,20 +265,18 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
     GOST_CTX *gctx = mctx;
     const OSSL_PARAM *p = NULL;
 
+    if (params == NULL)
+        return 1;
+
     if ((p = OSSL_PARAM_locate_const(params, "size")) != NULL
         && !OSSL_PARAM_get_size_t(p, &gctx->mac_size))
         return 0;
     if ((p = OSSL_PARAM_locate_const(params, "key")) != NULL) {
         const unsigned char *key = NULL;
         size_t keylen = 0;
-        int ret;
-
-        if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen))
-            return 0;
 
-        ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                              (int)keylen, (void *)key);
-        if (ret <= 0 && ret != -2)
+        if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen)
+            || !mac_set_key(gctx, key, keylen))
             return 0;
     }
     if ((p = OSSL_PARAM_locate_const(params, "xof")) != NULL
-- 
2.43.0


From e23d8f9c9511347da2330216bf5f947528ffdc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:09 +0000
Subject: [PATCH 62/65] fix: CMS_encrypt() to a GOST recipient without
 CMS_KEY_PARAM

Without a key context the recipient information gets the default
parameters instead of a failure.
---
 gost_ameth.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 33073d7..8eb7032 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -495,13 +495,12 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
           struct gost_pmeth_data *gctx = NULL;
           ASN1_STRING *params = NULL;
 
+          /* There is no context unless the caller asked for CMS_KEY_PARAM */
           pctx = CMS_RecipientInfo_get0_pkey_ctx(ri);
-          if (!pctx)
-            return 0;
-
-          gctx = EVP_PKEY_CTX_get_data(pctx);
+          if (pctx)
+            gctx = EVP_PKEY_CTX_get_data(pctx);
 
-          switch (gctx->cipher_nid) {
+          switch (gctx ? gctx->cipher_nid : NID_undef) {
             case NID_magma_ctr:
             case NID_kuznyechik_ctr:
               {
-- 
2.43.0


From ef42f463e5ec5d15e6140e2ea35432d976b15ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:00 +0000
Subject: [PATCH 63/65] fix: refuse messages whose content cipher has no
 parameters

The parameters of an AlgorithmIdentifier are optional: a message without
them crashed the recipient.
---
 gost_crypt.c    | 2 +-
 gost_gost2015.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 14adf60..e3e2a32 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1442,7 +1442,7 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     int nid;
 
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         return -1;
     }
 
diff --git a/gost_gost2015.c b/gost_gost2015.c
index e1ba6b2..1e34089 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -62,7 +62,7 @@ int gost2015_get_asn1_params(const ASN1_TYPE *params, size_t ukm_size,
     memset(iv, 0, iv_len);
 
     /* Проверяем тип params */
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         GOSTerr(GOST_F_GOST2015_GET_ASN1_PARAMS, GOST_R_INVALID_CIPHER_PARAMS);
         return 0;
     }
-- 
2.43.0


From de022dc294571c70809bd92e450696167caa6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:00 +0000
Subject: [PATCH 64/65] fix: reading of key agreement recipients

The originator's key was put into an X509_PUBKEY which took over parts of
the message: they were freed twice on an error and the rest leaked on
success. Messages without UKM, with a short one or without algorithm
parameters crashed the recipient.
---
 gost_ameth.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8eb7032..d7b9749 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -278,7 +278,11 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
 
 	nid = OBJ_obj2nid(alg->algorithm);
-	if (alg->parameter->type != V_ASN1_SEQUENCE)
+	if (alg->parameter == NULL || alg->parameter->type != V_ASN1_SEQUENCE)
+		  goto err;
+
+	/* The IV for the key is taken from the last 8 bytes of UKM */
+	if (ukm == NULL || ASN1_STRING_length(ukm) != 32)
 		  goto err;
 
 	switch (nid) {
@@ -298,9 +302,8 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 			goto err;
 
 	if (pubkey != NULL && pubalg != NULL) {
-		const ASN1_OBJECT *paobj = NULL;
-		int ptype = 0;
-		const void *param = NULL;
+		X509_ALGOR *palg = NULL;
+		unsigned char *penc = NULL;
 
 		peer_key = EVP_PKEY_new();
 		tmp = X509_PUBKEY_new();
@@ -310,16 +313,23 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 			goto err;
 		}
 
-		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
-
-		if (X509_PUBKEY_set0_param(tmp, (ASN1_OBJECT *)paobj,
-			ptype, (void *)param,
-			(unsigned char *)ASN1_STRING_get0_data(pubkey),
-			ASN1_STRING_length(pubkey) ) == 0) {
+		/* The message keeps its own: the key gets copies */
+		penc = OPENSSL_memdup(ASN1_STRING_get0_data(pubkey),
+			ASN1_STRING_length(pubkey));
+		if (penc == NULL || X509_PUBKEY_set0_param(tmp,
+			OBJ_nid2obj(EVP_PKEY_base_id(EVP_PKEY_CTX_get0_pkey(pctx))),
+			V_ASN1_UNDEF, NULL, penc, ASN1_STRING_length(pubkey)) == 0) {
+				OPENSSL_free(penc);
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
 				goto err;
 		}
 
+		if (X509_PUBKEY_get0_param(NULL, NULL, NULL, &palg, tmp) == 0
+			|| X509_ALGOR_copy(palg, pubalg) == 0) {
+				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, ERR_R_MALLOC_FAILURE);
+				goto err;
+		}
+
 		if (pub_decode_gost_ec(peer_key, tmp) <= 0) {
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_ERROR_DECODING_PUBLIC_KEY);
 				goto err;
@@ -344,9 +354,7 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 	ret = 1;
 err:
 	EVP_PKEY_free(peer_key);
-	if (ret == 0) {
-		X509_PUBKEY_free(tmp);
-	}
+	X509_PUBKEY_free(tmp);
 
 	return ret;
 }
-- 
2.43.0


From 1597d6046add6efb6631f7847a2ebbe456206eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:28 +0000
Subject: [PATCH 65/65] fix: encoding of keys with parts missing

Writing a public-only key as a private key, or a key without parameters,
crashed instead of failing.
---
 gost_ameth.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index d7b9749..394b294 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -27,8 +27,11 @@
  */
 int store_bignum(const BIGNUM *bn, unsigned char *buf, int len)
 {
-    int bytes = BN_num_bytes(bn);
+    int bytes;
 
+    if (bn == NULL)
+        return 0;
+    bytes = BN_num_bytes(bn);
     if (bytes > len)
         return 0;
     memset(buf, 0, len);
@@ -65,6 +68,10 @@ static ASN1_STRING *encode_gost_algor_params(const EVP_PKEY *key)
         GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, ERR_R_MALLOC_FAILURE);
         goto err;
     }
+    if (key_ptr == NULL || EC_KEY_get0_group(key_ptr) == NULL) {
+        GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, GOST_R_KEY_PARAMETERS_MISSING);
+        goto err;
+    }
     switch (EVP_PKEY_base_id(key)) {
     case NID_id_GostR3410_2012_256:
         pkey_param_nid = EC_GROUP_get_curve_name(EC_KEY_get0_group(key_ptr));
-- 
2.43.0

