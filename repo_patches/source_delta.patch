From ed7dc5a4418f31be67974899b406919986905d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 01/29] fix: reject LZMA chunks without properties when none
 have been set since the last dictionary reset

---
 lzma2_dec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..8522aa9 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -958,7 +958,7 @@ size_t LZMA2_initDecoder(LZMA2_DCtx *const p, BYTE const dict_prop, BYTE *const
     p->dic_buf_size = dic_buf_size;
     p->prop.lc = 3;
     p->prop.lp = 0;
-    p->prop.lc = 2;
+    p->prop.pb = 2;
     p->prop.dic_size = (U32)dict_size;
 
     p->state2 = LZMA2_STATE_CONTROL;
@@ -1061,12 +1061,14 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             unsigned const mode = LZMA2_GET_LZMA_MODE(p->control);
             BYTE const init_dic = (mode == 3);
             BYTE const init_state = (mode != 0);
-            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
+            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2)
+                || (!LZMA2_IS_THERE_PROP(mode) && p->need_init_prop))
                 return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
             p->need_init_dic = 0;
             p->need_init_state2 = 0;
+            p->need_init_prop = 0;
         }
     }
     if (p->state2 == LZMA2_STATE_DATA) {
-- 
2.43.0


From ea3a462fb08a1e5661966a0830913f510719dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 02/29] fix: do not read past the end of the input when an LZMA
 chunk is corrupt or truncated

---
 lzma2_dec.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 8522aa9..8873155 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -862,21 +862,31 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
         if (p->need_init_state)
             LZMA_initStateReal(p);
 
+        const BYTE *buf = src;
         const BYTE *buf_limit;
-        if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
+        BYTE tail[LZMA_REQUIRED_INPUT_MAX * 2];
+        if (in_size > LZMA_REQUIRED_INPUT_MAX) {
+            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
+        }
+        else if (finish_mode == LZMA_FINISH_END) {
+            /* One symbol can use up to LZMA_REQUIRED_INPUT_MAX bytes, which may not exist
+             * if the chunk is corrupt. Decode the end of it from a padded copy. */
+            memcpy(tail, src, in_size);
+            memset(tail + in_size, 0, sizeof(tail) - in_size);
+            buf = tail;
+            buf_limit = tail + in_size;
         }
         else {
-            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
-                return LZMA_STATUS_NEEDS_MORE_INPUT;
-            }
-            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
+            return LZMA_STATUS_NEEDS_MORE_INPUT;
         }
-        p->buf = src;
+        p->buf = buf;
 
         CHECK_F(LZMA_decodeReal2(p, dic_limit, buf_limit));
 
-        size_t const processed = (size_t)(p->buf - src);
+        size_t const processed = (size_t)(p->buf - buf);
+        if (processed > in_size)
+            return FL2_ERROR(corruption_detected);
+
         (*src_len) += processed;
         src += processed;
         in_size -= processed;
-- 
2.43.0


From 03f60a41277145b596fd61ee866b16202d120260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 03/29] fix: reject LZMA chunks whose packed size exceeds the
 data their symbols use

---
 lzma2_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 8873155..2dc04c1 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1127,8 +1127,8 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             if (FL2_isError(res))
                 return res;
 
-            /* error if decoder not finished but chunk output is complete */
-            if (res != LZMA_STATUS_FINISHED && p->unpack_size == 0)
+            /* error if chunk output is complete but decoder not finished or packed data is left over */
+            if (p->unpack_size == 0 && (res != LZMA_STATUS_FINISHED || p->pack_size != 0))
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
-- 
2.43.0


From f5e4953390418ace4229ef5a87bcb7c598561a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 04/29] fix: do not read the property byte of an empty input in
 FL2_decompressDCtx

---
 fl2_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..cdc1f8d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -320,6 +320,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     const BYTE *srcBuf = src;
 
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
-- 
2.43.0


From 3647fc8f2e3c6612ed8ce5491dd82a69a8bd6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 05/29] fix: do not read the property byte from an empty input
 buffer in multithreaded stream decoding

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index cdc1f8d..6891f24 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1200,7 +1200,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
 
     if (input->pos < input->size
 #ifndef FL2_SINGLETHREAD
-        || decmt
+        || (decmt && fds->stage != FL2DEC_STAGE_INIT)
 #endif
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
-- 
2.43.0


From 5273e9120b5515a6555d8b2c366d3773a0b5a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 06/29] fix: report an invalid property byte in
 FL2_decompressStream instead of ignoring it

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 6891f24..81926a2 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1206,7 +1206,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From 920cdde2d67e8a83083d4e49eaf666cf5825d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 07/29] fix: do not dereference a null pointer in
 FL2_cancelDStream for single-threaded streams

---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 81926a2..0c09bf4 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1142,11 +1142,13 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 1;
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
-- 
2.43.0


From b29a194fdcd7a1afa0714e1e54e476d27dc254fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 08/29] fix: avoid a deadlock when a timed FL2_decompressStream
 makes no progress

---
 fl2_decompress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 0c09bf4..a855338 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1255,7 +1255,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+            /* This may be running in decompressThread, so waiting for it is not possible */
+#ifndef FL2_SINGLETHREAD
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From a646f42ab48408ebfacab4509d173b325bcb0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 09/29] fix: unlock the parameters when FL2_compressCCtx fails

---
 fl2_compress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..997cb30 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -562,6 +562,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    /* Compression is complete or failed, so unlock the parameters in either case */
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -588,8 +591,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         dstBuf += XXHASH_SIZEOF;
     }
 #endif
-    
-    FL2_endFrame(cctx);
 
     return dstBuf - (BYTE*)dst;
 }
-- 
2.43.0


From 2d44785b602b2fa50eae65045f035814b68f1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 10/29] fix: apply the level passed to FL2_initCStream after an
 unfinished stream

---
 fl2_compress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 997cb30..db21676 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -859,6 +859,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
+    /* A previous stream may have failed or been abandoned before its end */
+    fcs->lockParams = 0;
 
     if(compressionLevel > 0)
         FL2_CCtx_setParameter(fcs, FL2_p_compressionLevel, compressionLevel);
-- 
2.43.0


From be37c5ef44a1bd71437ad20b93562645d4cf0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 11/29] fix: do not write the property byte for empty input if
 properties are omitted

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index db21676..e65574b 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -575,7 +575,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From 80c5cc12934b61378cfbf53d8c48fc80f9a19b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 12/29] fix: exclude output already copied from
 FL2_remainingOutputSize

---
 fl2_compress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index e65574b..1ba44ae 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1127,7 +1127,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
     for (size_t u = fcs->outThread; u < fcs->threadCount; ++u)
         cSize += fcs->jobs[u].cSize;
 
-    return cSize;
+    /* outPos bytes of the first slice are already copied */
+    return cSize - fcs->outPos;
 }
 
 /* Write the properties byte (if required), the hash and the end marker
-- 
2.43.0


From 2a08dbba8562ffc7af91944952782e7ec4d51ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 13/29] fix: validate the level in FL2_estimateCStreamSize

---
 fl2_compress.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 1ba44ae..36e0b4a 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1297,6 +1297,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
     return FL2_estimateCCtxSize(compressionLevel, nbThreads)
         + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
 }
-- 
2.43.0


From 949c9d737de02dcb1ed22b6cdf82c73f00a4c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 14/29] fix: do not report completion from FL2POOL_waitAll
 while a job is still queued

---
 fl2_pool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..3a0db07 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -186,8 +186,9 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    int const busy = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return busy;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From ce28d597bc1b04eabedc9c19d363f27a12350d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 15/29] fix: forget the hash chain size if its allocation fails

---
 lzma2_enc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..5d92a43 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,10 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From f13f3754bce43d40a0a990394cb038c6ff47e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 16/29] fix: return an error if the match table builders cannot
 be allocated

---
 fl2_compress.c | 2 +-
 radix_mf.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 36e0b4a..1ccfe88 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -453,7 +453,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index 346f894..78da7e7 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -228,7 +228,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From 6d26f9b440b2ddd46449561a1fd438f335684738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 17/29] fix: free the context if the dual buffer thread cannot
 be created

---
 fl2_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 1ccfe88..b47b476 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
-- 
2.43.0


From 5f88aed45be9fc295b071e9fcedac612a452589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 18/29] fix: round up the structured table size in
 RMF_memoryUsage as its allocation does

---
 radix_mf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index 78da7e7..59d06b8 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -732,7 +732,8 @@ BYTE* RMF_getTableAsOutputBuffer(FL2_matchTable* const tbl, size_t const pos)
 
 size_t RMF_memoryUsage(size_t const dict_size, unsigned const buffer_resize, unsigned const thread_count)
 {
-    size_t size = (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
+    size_t size = RMF_isStruct(dict_size) ? ((dict_size + 3U) / 4U) * sizeof(RMF_unit)
+        : dict_size * sizeof(U32);
     size_t const buf_size = RMF_calBufSize(dict_size, buffer_resize);
     size += ((buf_size - 1) * sizeof(RMF_buildMatch) + sizeof(RMF_builder)) * thread_count;
     return size;
-- 
2.43.0


From 2e330eaa3f0748498db8957749e97db2f16a4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 19/29] fix: return the corrected value of a flag parameter,
 which may otherwise look like an error code

---
 fl2_compress.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index b47b476..c0f94b0 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -657,7 +657,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_CCtx_setParameter(FL2_CCtx* cctx, FL2_cParamet
         break;
 
     case FL2_p_highCompression:
-        cctx->params.highCompression = value != 0;
+        value = value != 0;
+        cctx->params.highCompression = (BYTE)value;
         FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, cctx->params.compressionLevel);
         break;
 
@@ -708,7 +709,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_CCtx_setParameter(FL2_CCtx* cctx, FL2_cParamet
         break;
 
     case FL2_p_divideAndConquer:
-        cctx->params.rParams.divide_and_conquer = value != 0;
+        value = value != 0;
+        cctx->params.rParams.divide_and_conquer = (unsigned)value;
         break;
 
     case FL2_p_strategy:
@@ -741,12 +743,14 @@ FL2LIB_API size_t FL2LIB_CALL FL2_CCtx_setParameter(FL2_CCtx* cctx, FL2_cParamet
 
 #ifndef NO_XXHASH
     case FL2_p_doXXHash:
-        cctx->params.doXXH = value != 0;
+        value = value != 0;
+        cctx->params.doXXH = (BYTE)value;
         break;
 #endif
 
     case FL2_p_omitProperties:
-        cctx->params.omitProp = value != 0;
+        value = value != 0;
+        cctx->params.omitProp = (BYTE)value;
         break;
 #ifdef RMF_REFERENCE
     case FL2_p_useReferenceMF:
-- 
2.43.0


From 930684809c1a5ee331681e4663a0c72f05cd9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 20/29] fix: test for pool completion only with the mutex
 locked

---
 fl2_pool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 3a0db07..9207ce6 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -174,8 +174,9 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
+    /* The state can only be tested with the mutex locked, or a job being started may be missed */
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
     if (timeout != 0) {
-- 
2.43.0


From ea60c0de0943407d6342079b8425dd1a488bf82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 21/29] fix: stop compression underway before freeing or
 reinitializing a compression stream

---
 fl2_compress.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index c0f94b0..4acbc57 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -205,17 +205,19 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+#ifndef FL2_SINGLETHREAD
+    /* Compression may be underway in compressThread, which uses the factory and everything freed below */
+    FL2_cancelCStream(cctx);
+    FL2POOL_free(cctx->compressThread);
+    FL2POOL_free(cctx->factory);
+#endif
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
         LZMA2_freeECtx(cctx->jobs[u].enc);
     }
 
-#ifndef FL2_SINGLETHREAD
-    FL2POOL_free(cctx->factory);
-    FL2POOL_free(cctx->compressThread);
-#endif
-
     RMF_freeMatchTable(cctx->matchTable);
     free(cctx);
 }
@@ -865,8 +867,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
-    /* A previous stream may have failed or been abandoned before its end */
-    fcs->lockParams = 0;
+    /* A previous stream may have failed or been abandoned before its end, and compression may be underway */
+    FL2_cancelCStream(fcs);
 
     if(compressionLevel > 0)
         FL2_CCtx_setParameter(fcs, FL2_p_compressionLevel, compressionLevel);
-- 
2.43.0


From 3df2293dd3e35cfe12479af867b7f7dbeb9d1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 22/29] fix: stop decompression underway before freeing the
 decoder of a stream

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index a855338..3d4c152 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1071,11 +1071,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
-        LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
+        /* Decompression may be underway in decompressThread */
         FL2POOL_free(fds->decompressThread);
         FL2_lzma2DecMt_free(fds->decmt);
 #endif
+        LZMA_destructDCtx(&fds->dec);
 #ifndef NO_XXHASH
         XXH32_freeState(fds->xxh);
 #endif
-- 
2.43.0


From a60f4b8c8c445206c27922a12ee5cebd1aa4c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 23/29] fix: allocate the hash chain if the options require
 one, not the previous strategy

---
 lzma2_enc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index 5d92a43..93ac6c8 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -868,7 +868,7 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
  */
 int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters* const options)
 {
-    if (enc->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
+    if (options->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
         return LZMA_hashCreate(enc, options->second_dict_bits);
 
     return 0;
-- 
2.43.0


From 42dc9cc2a310c5961e06006c44fd71192024f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 24/29] fix: do not read past the end of the data when
 extending a repeat in the match finder

---
 radix_mf.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/radix_mf.c b/radix_mf.c
index 59d06b8..f5aae6e 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -295,6 +295,7 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     U32 count,
     U32 const rpt_len,
     U32 const depth,
+    U32 const max_depth,
     U32 const max_len)
 {
     size_t pos = next;
@@ -303,7 +304,9 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     const BYTE* const data = data_block + match_buffer[pos].from;
     const BYTE* const data_2 = data - rpt_len;
 
-    while (data[length] == data_2[length] && length < max_len)
+    /* The data is only known to be readable up to max_depth */
+    U32 const limit = MIN(max_depth, max_len);
+    while (length < limit && data[length] == data_2[length])
         ++length;
 
     for (; length <= max_len && count; --count) {
@@ -562,7 +565,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                 size_t const next_link = tbl->match_buffer[next_index].from;
                 if ((link - next_link) > rpt_depth) {
                     if (rpt > 0)
-                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_depth, tbl->max_len);
 
                     rpt = -1;
                     U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -584,7 +587,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                     U32 const dist = (U32)(link - next_link);
                     if (rpt < 0 || dist != rpt_dist) {
                         if (rpt > 0)
-                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_depth, tbl->max_len);
 
                         rpt = 0;
                         rpt_head_next = next_index;
@@ -611,7 +614,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             } while (--list_count != 0);
 
             if (rpt > 0)
-                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_depth, tbl->max_len);
 
             size_t const radix_8 = tbl->match_buffer[pos].src.chars[slot];
             U32 const prev = tbl->tails_8[radix_8].prev_index;
-- 
2.43.0


From 4a72b7de55240a78180c575d9b018851e51d0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 25/29] fix: report corruption if an LZMA chunk is too small
 for the range coder to start

---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 2dc04c1..2defe69 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1135,7 +1135,7 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
                1. need input but chunk is finished
                2. have output space, input not needed, but nothing was written*/
             if (res == LZMA_STATUS_NEEDS_MORE_INPUT)
-                return (p->pack_size == 0) ? FL2_ERROR(corruption_detected) : res;
+                return (cur_finish_mode == LZMA_FINISH_END) ? FL2_ERROR(corruption_detected) : res;
             else if (in_cur == 0 && p->dic_pos == dic_pos)
                 return FL2_ERROR(corruption_detected);
         }
-- 
2.43.0


From 01d0afc39cdd7a0b0596f8f187b609682f0f5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 26/29] fix: set the match lengths of a two-byte repeat
 crossing the start of the block

---
 radix_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_engine.h b/radix_engine.h
index 7bccaab..aaa224f 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -60,7 +60,7 @@ static size_t RMF_handleRepeat2(RMF_builder* const tbl, const BYTE* const data_b
 
     ptrdiff_t const rpt_index = i;
     /* No point if it's in the overlap region */
-    if (i >= (ptrdiff_t)start) {
+    if (last_2 >= (ptrdiff_t)start) {
         U32 len = depth + (data_block[last_2 + depth] == data_block[last_2]);
         /* Set matches at distance 2 and available length */
         for (i = last_2; i > rpt_index && len <= RADIX_MAX_LENGTH; i -= 2) {
-- 
2.43.0


From bc612778dcb00213a7cac43388d7194ab0a40244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 27/29] fix: do not switch dictionary buffers when the current
 one is empty

---
 dict_buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dict_buffer.c b/dict_buffer.c
index 06d9a4f..bfc5659 100644
--- a/dict_buffer.c
+++ b/dict_buffer.c
@@ -176,7 +176,9 @@ int DICT_async(const DICT_buffer * const buf)
  * if it exists */
 void DICT_shift(DICT_buffer * const buf)
 {
-    if (buf->start < buf->end)
+    /* Nothing to do if unprocessed data exists or the buffer is empty. The alternate may still be
+     * in use by the compressor. */
+    if (buf->start < buf->end || buf->end == 0)
         return;
 
     size_t overlap = buf->overlap;
-- 
2.43.0


From 54299a1081bce2286830d609d4d2be072c9de128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 28/29] fix: dictionary property 40 was refused by 64-bit
 builds

LZMA2_getDictSizeFromProp returned (size_t)-1 for property 40, which is
FL2_ERROR(GENERIC), instead of the 4 GiB - 1 the format defines.
---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 2defe69..36ed901 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -920,7 +920,7 @@ size_t LZMA2_getDictSizeFromProp(BYTE const dict_prop)
         return FL2_ERROR(corruption_detected);
 
     size_t const dict_size = (dict_prop == 40)
-        ? (size_t)-1
+        ? (size_t)0xFFFFFFFF
         : (((size_t)2 | (dict_prop & 1)) << (dict_prop / 2 + 11));
     return dict_size;
 }
-- 
2.43.0


From 6354a871998a2292a54812ab729927412390f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 29/29] fix: a level given to FL2_compressCCtx after an
 abandoned stream was dropped

---
 fl2_compress.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 4acbc57..294a62e 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -549,11 +549,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if (dstCapacity < 2U - cctx->params.omitProp) /* empty LZMA2 stream is byte sequence {0, 0} */
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (compressionLevel > 0)
-        FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
-
-    DEBUGLOG(4, "FL2_compressCCtx : level %u, %u src => %u avail", cctx->params.compressionLevel, (U32)srcSize, (U32)dstCapacity);
-
 #ifndef FL2_SINGLETHREAD
     /* No async compression for in-memory function */
     FL2POOL_free(cctx->compressThread);
@@ -561,6 +556,14 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     cctx->timeout = 0;
 #endif
 
+    /* A stream may have been abandoned before its end, leaving the parameters locked */
+    FL2_endFrame(cctx);
+
+    if (compressionLevel > 0)
+        FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
+
+    DEBUGLOG(4, "FL2_compressCCtx : level %u, %u src => %u avail", cctx->params.compressionLevel, (U32)srcSize, (U32)dstCapacity);
+
     FL2_preBeginFrame(cctx, srcSize);
     CHECK_F(FL2_beginFrame(cctx, srcSize));
 
-- 
2.43.0

