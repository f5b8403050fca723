From 0b78856effc5a48abc973153fd140725f9de4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 01/60] fix: read target compression from the header only for
 version 1 deltas, with its level

Version 2 and 3 deltas store the target compression, but reading any
standard delta required a known compressor name in the target header, so
deltas of packages with uncompressed payload could be made and never
applied. Version 1 deltas, which do take the compression from the header,
ignored the level recorded there and failed for all but the default.
---
 src/drpm_read.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..7b166ed 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -116,6 +116,14 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         goto cleanup;
     }
 
+    if (delta->version < 2) {
+        // target compression not included before version 2, using header's
+        if ((error = rpm_get_comp(delta->head.tgt_rpm, &delta->tgt_comp)) != DRPM_ERR_OK)
+            goto cleanup;
+        if (rpm_get_comp_level(delta->head.tgt_rpm, &delta->tgt_comp_level) != DRPM_ERR_OK)
+            delta->tgt_comp_level = DRPM_COMP_LEVEL_DEFAULT;
+    }
+
     /* reading source NEVR */
 
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
@@ -417,10 +425,6 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
-    /* reading target compression from header (used for older delta versions) */
-    if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
-        return error;
-
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-- 
2.43.0


From 364278a0dcc8b6df860b35736f39631ec896da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 02/60] fix: read the old package as is when applying an
 rpm-only identity delta

Such a delta contains no data; the new package is the old one with another
lead and signature. The archive was decompressed on reading and written
like that, so applying always failed with a mismatch unless the payload
was uncompressed.
---
 src/drpm.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..49877c8 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -501,6 +501,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     struct deltarpm delta = {0};
     const bool from_rpm = (old_rpm_name != NULL);
     bool rpm_only;
+    bool no_diff;
     struct rpm *old_rpm = NULL;
     struct rpm *patched_rpm = NULL;
     unsigned char oldsig_md5[MD5_DIGEST_LENGTH];
@@ -549,11 +550,14 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = read_deltarpm(&delta, deltarpm_name)) != DRPM_ERR_OK)
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
 
     if (from_rpm) {
-        /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* reading old RPM (no-diff DeltaRPMs take its archive "as is") */
+        if ((error = rpm_read(&old_rpm, old_rpm_name, no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -604,8 +608,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 11624ba57430804a642f06248fb2102497b06d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 03/60] fix: check file positions of damaged sequences before
 use

---
 src/drpm_apply.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..7606298 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -23,6 +23,7 @@
 #include "drpm_private.h"
 
 #include <stdlib.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdbool.h>
 #include <string.h>
@@ -115,6 +116,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             i++;
         }
         even = !even;
+        if (shift >= CHAR_BIT * sizeof(size_t)) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
         if ((num_buf & (1 << 3)) != 0) {
             num_buf ^= 1 << 3;
             if (shift)
@@ -146,7 +151,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From a68dba992fde37154fb3b5f468ede768dd99c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 04/60] fix: reject compression levels the compression library
 does not accept

---
 src/drpm_compstrm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..7c0fd0c 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -295,12 +295,14 @@ int init_bzip2(struct compstrm *strm, int level)
         level = 9;
 
     switch (BZ2_bzCompressInit(&strm->stream.bzip2, level, 0, 0)) {
+    case BZ_OK:
+        break;
     case BZ_CONFIG_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -320,12 +322,14 @@ int init_gzip(struct compstrm *strm, int level)
 
     switch (deflateInit2(&strm->stream.gzip, level, Z_DEFLATED,
             16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY)) {
+    case Z_OK:
+        break;
     case Z_VERSION_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -343,7 +347,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_FORMAT;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From ac77f28ce857e8d339a6b577fdabf7386eef2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 05/60] fix: release the encoder of compression streams that
 fail

---
 src/drpm_compstrm.c | 72 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 9 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 7c0fd0c..840c477 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -42,6 +42,7 @@ struct compstrm {
     size_t data_len;
     size_t data_pos;
     int filedesc;
+    unsigned short comp;
     union {
         z_stream gzip;
         bz_stream bzip2;
@@ -114,6 +115,10 @@ int finish_bzip2(struct compstrm *strm)
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
         ret = BZ2_bzCompress(&strm->stream.bzip2, BZ_FINISH);
+        if (ret < 0) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
         out_len = CHUNK_SIZE - strm->stream.bzip2.avail_out;
         if (out_len == 0)
             continue;
@@ -239,6 +244,7 @@ int finish_lzip(struct compstrm *strm)
 
 cleanup:
     LZ_compress_close(strm->stream.lzip);
+    strm->stream.lzip = NULL;
 
     return error;
 }
@@ -247,6 +253,7 @@ cleanup:
 #ifdef WITH_ZSTD
 int finish_zstd(struct compstrm *strm)
 {
+    int error = DRPM_ERR_OK;
     size_t const buffOutSize = ZSTD_CStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
     if (buffOut == NULL)
@@ -259,21 +266,28 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(remaining)) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     } while(remaining != 0);
 
+cleanup:
     free(buffOut);
     ZSTD_freeCCtx(strm->stream.zstd_context);
-    return DRPM_ERR_OK;
+    strm->stream.zstd_context = NULL;
+
+    return error;
 }
 
 #endif
@@ -413,8 +427,10 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
@@ -423,12 +439,44 @@ int init_zstd(struct compstrm *strm, int level)
 }
 #endif
 
+/* Releases the encoder of a stream that was not finished successfully
+ * (no effect if the encoder has already been closed). */
+static void release(struct compstrm *strm)
+{
+    switch (strm->comp) {
+    case DRPM_COMP_GZIP:
+        deflateEnd(&strm->stream.gzip);
+        break;
+    case DRPM_COMP_BZIP2:
+        BZ2_bzCompressEnd(&strm->stream.bzip2);
+        break;
+    case DRPM_COMP_LZMA:
+    case DRPM_COMP_XZ:
+        lzma_end(&strm->stream.lzma);
+        break;
+#ifdef HAVE_LZLIB_DEVEL
+    case DRPM_COMP_LZIP:
+        if (strm->stream.lzip != NULL)
+            LZ_compress_close(strm->stream.lzip);
+        break;
+#endif
+#ifdef WITH_ZSTD
+    case DRPM_COMP_ZSTD:
+        ZSTD_freeCCtx(strm->stream.zstd_context);
+        break;
+#endif
+    }
+}
+
 /* Frees memory allocated by compression stream. */
 int compstrm_destroy(struct compstrm **strm)
 {
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    if (!(*strm)->finished)
+        release(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -453,6 +501,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->comp = comp;
     (*strm)->finished = false;
 
     switch (comp) {
@@ -489,7 +538,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
@@ -749,13 +799,17 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
-- 
2.43.0


From bebb8e46fcbf43b8eae05063be4f35d02a39cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 06/60] fix: locate installed files by their archive position

---
 src/drpm_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..0b3bdd1 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -976,15 +976,15 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                file = get_open_file(blks, cpio - blks->cpio_files);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, cpio - blks->cpio_files)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, cpio - blks->cpio_files);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From 97b70f3af48336df258f5971bf9660a296b13434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 07/60] fix: forget installed files that are closed to open
 others

---
 src/drpm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 0b3bdd1..4a01e7d 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -53,6 +53,7 @@ struct open_file {
     int filedesc;
     const char *name;
     off_t offset;
+    size_t index;
 };
 
 /* a block */
@@ -611,11 +612,13 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        blks->rpm_files.from_filesytem.open_files[new->index] = NULL;
     }
 
     new->filedesc = filedesc;
     new->name = file.name;
     new->offset = 0;
+    new->index = index;
     new->prev = NULL;
     new->next = NULL;
 
-- 
2.43.0


From 6f547d89fd0db940048563c505904a5212579c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 08/60] fix: do not free the inside of the section table when
 checking for prelink

---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 7606298..24d6b08 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -531,6 +531,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    const unsigned char *sect;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -584,14 +585,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    sect = sects + stridx * ssiz;
+    if (elf32(sect + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? sect + 24 : sect + 16, le, is64);
+    slen = elf64(is64 ? sect + 32 : sect + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From 41b72cc170c5507ee4ccce0d0a70aba66dafa06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 09/60] fix: release descriptors and temporary files when a
 prelink check fails

---
 src/drpm_apply.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 24d6b08..f6e1dee 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -307,8 +307,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -350,7 +352,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -646,6 +648,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -655,10 +658,10 @@ int prelink_open(const char *filename, int *filedesc)
 
     while (waitpid(pid, &status, 0) == (pid_t)-1);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
-
+    fd = open(template, O_RDONLY);
     unlink(template);
+    if (fd < 0)
+        return DRPM_ERR_IO;
 
     *filedesc = fd;
 
-- 
2.43.0


From dffcd3483d5fd6995f2fbe4cff842bc871dd8633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 10/60] fix: take targets of version 1 deltas without a payload
 compressor as uncompressed

---
 src/drpm_rpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..c6f635e 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -593,8 +593,11 @@ int rpm_get_comp(struct rpm *rpmst, unsigned short *comp)
     if (rpmst == NULL || comp == NULL)
         return DRPM_ERR_PROG;
 
-    if ((payload_comp = headerGetString(rpmst->header, RPMTAG_PAYLOADCOMPRESSOR)) == NULL)
-        return DRPM_ERR_FORMAT;
+    /* packages with uncompressed payload do not name a compressor */
+    if ((payload_comp = headerGetString(rpmst->header, RPMTAG_PAYLOADCOMPRESSOR)) == NULL) {
+        *comp = DRPM_COMP_NONE;
+        return DRPM_ERR_OK;
+    }
 
     if (strcmp(payload_comp, "gzip") == 0) {
         *comp = DRPM_COMP_GZIP;
-- 
2.43.0


From 64ac71518aa37f28ed67ee35a4916181897148c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 11/60] fix: refuse counts of copies and adjustments whose
 sizes overflow

---
 src/drpm_read.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 7b166ed..1d41549 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -35,6 +35,9 @@
 #define MAGIC_DLT(x) (((x) >> 8) == 0x444C54)
 #define MAGIC_DLT3(x) ((x) == 0x444C5433)
 
+/* number of pairs of 32-bit numbers whose size in bytes fits into 32 bits */
+#define MAX_ELEMS (UINT32_MAX / 8)
+
 static int readdelta_rest(int, struct deltarpm *);
 static int readdelta_rpmonly(int, struct deltarpm *);
 static int readdelta_standard(int, struct deltarpm *);
@@ -198,6 +201,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 (error = decompstrm_read_be32(stream, &delta->offadj_elems_count)) != DRPM_ERR_OK)
                 goto cleanup;
 
+            if (delta->offadj_elems_count > MAX_ELEMS) {
+                error = DRPM_ERR_OVERFLOW;
+                goto cleanup;
+            }
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
                 if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
@@ -248,6 +256,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > MAX_ELEMS || delta->ext_copies_count > MAX_ELEMS) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
-- 
2.43.0


From 38c03d22775b9904f50095a0eb4ca3f92d419307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 12/60] fix: refuse name lengths in deltas that overflow

---
 src/drpm_read.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 1d41549..53c12ee 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -132,6 +132,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (src_nevr_len == UINT32_MAX) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
@@ -400,6 +405,9 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
+    if (tgt_nevr_len == UINT32_MAX)
+        return DRPM_ERR_OVERFLOW;
+
     if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
@@ -523,11 +531,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
          (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-- 
2.43.0


From 48f37ef733e6cb01edeaf80b0f3386cb7abfd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 13/60] fix: refuse deltas of an unknown version

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 53c12ee..fb612dd 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -113,6 +113,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->version = version % 256 - '0';
 
+    if (delta->version < 1 || delta->version > 3) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     if (delta->version < 3 && delta->type == DRPM_TYPE_RPMONLY) {
         // rpm-only deltas only supported since version 3
         error = DRPM_ERR_FORMAT;
-- 
2.43.0


From fec84d8861f10edf739508ecb95f0a0013db211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 14/60] fix: check the size of the signature in a delta before
 importing it

---
 src/drpm_rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index c6f635e..f658176 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -550,6 +550,7 @@ cleanup:
 int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, size_t leadsig_len)
 {
     const size_t skip = RPMLEAD_SIZE + sizeof(rpm_header_magic);
+    uint64_t signature_len;
 
     if (rpmst == NULL || leadsig == NULL || leadsig_len < RPM_LEADSIG_MIN_LEN)
         return DRPM_ERR_PROG;
@@ -557,6 +558,11 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    /* the index and the data of the signature must not exceed <leadsig> */
+    signature_len = 8 + (uint64_t)parse_be32(leadsig + skip) * 16 + parse_be32(leadsig + skip + 4);
+    if (signature_len > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
-- 
2.43.0


From cb0fe85cb5996d6704665bc9b6e3517e6742a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 15/60] fix: refuse archive entries whose name has no or an
 oversized length

---
 src/drpm_make.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..88fefca 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -221,7 +221,8 @@ int cpio_header_read(struct cpio_header *cpio_hdr,
         (devminor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
         (rdevmajor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
         (rdevminor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
-        (namesize_ret = parse_hexnum((buffer += 8), 8)) < 0)
+        (namesize_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
+        namesize_ret == 0 || namesize_ret > UINT16_MAX)
         return DRPM_ERR_FORMAT;
 
     cpio_hdr->ino = ino_ret;
-- 
2.43.0


From 09a179604f2277949030f061c719830e354a1419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 16/60] fix: do not search for matches of data shorter than a
 hash unit

---
 src/drpm_search.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..435ce43 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -231,9 +231,15 @@ size_t hash_search(struct hash *hsh,
 
     uint32_t key;
     uint32_t key2;
-    uint32_t prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    uint32_t prekey;
     uint32_t xprekey;
 
+    if (new_len < HSIZE) {
+        *pos_ret = 0;
+        *len_ret = 0;
+        return new_len;
+    }
+
     hash_table = hsh->hash_table;
     ht_len = hsh->ht_len;
     scan_start = scan;
-- 
2.43.0


From cf5a15cde93eeecf41e5ff71bc1213bfa6371fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 17/60] fix: check the directory indexes of damaged headers
 before building file names

---
 src/drpm_rpm.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index f658176..356dee8 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -54,6 +54,7 @@ static void rpm_init(struct rpm *);
 static void rpm_free(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
+static bool rpm_file_names_valid(struct rpm *);
 static void rpm_header_unload_region(struct rpm *, rpmTagVal);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
@@ -729,6 +730,38 @@ int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
     return DRPM_ERR_OK;
 }
 
+/* Checks that every file of the header is in one of its directories,
+ * which librpm takes for granted when it puts the file names together. */
+bool rpm_file_names_valid(struct rpm *rpmst)
+{
+    rpmtd basenames = rpmtdNew();
+    rpmtd dirnames = rpmtdNew();
+    rpmtd dirindexes = rpmtdNew();
+    const uint32_t *dirindex;
+    bool valid = true;
+
+    if (headerGet(rpmst->header, RPMTAG_BASENAMES, basenames, HEADERGET_MINMEM) == 1) {
+        headerGet(rpmst->header, RPMTAG_DIRNAMES, dirnames, HEADERGET_MINMEM);
+        headerGet(rpmst->header, RPMTAG_DIRINDEXES, dirindexes, HEADERGET_MINMEM);
+        valid = (rpmtdType(basenames) == RPM_STRING_ARRAY_TYPE &&
+                 rpmtdType(dirnames) == RPM_STRING_ARRAY_TYPE &&
+                 rpmtdType(dirindexes) == RPM_INT32_TYPE &&
+                 rpmtdCount(basenames) == rpmtdCount(dirindexes));
+        while (valid && (dirindex = rpmtdNextUint32(dirindexes)) != NULL)
+            valid = (*dirindex < rpmtdCount(dirnames));
+    }
+
+    rpmtdFreeData(basenames);
+    rpmtdFreeData(dirnames);
+    rpmtdFreeData(dirindexes);
+
+    rpmtdFree(basenames);
+    rpmtdFree(dirnames);
+    rpmtdFree(dirindexes);
+
+    return valid;
+}
+
 /* Fetches a list of file information from the header. */
 int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
                       size_t *count_ret, bool *colors_ret)
@@ -760,6 +793,9 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
     if (rpmst == NULL || files_ret == NULL || count_ret == NULL)
         return DRPM_ERR_PROG;
 
+    if (!rpm_file_names_valid(rpmst))
+        return DRPM_ERR_FORMAT;
+
     filenames = rpmtdNew();
     fileflags = rpmtdNew();
     filemd5s = rpmtdNew();
-- 
2.43.0


From 2667a562815b3705ea995b530eb05da040243742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 18/60] fix: check the length of hexadecimal digests before
 storing them

---
 src/drpm_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..ff3ad89 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,12 +146,14 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == MD5_DIGEST_LENGTH;
+    return strlen(source) / 2 == MD5_DIGEST_LENGTH &&
+           parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
+    return strlen(source) / 2 == SHA256_DIGEST_LENGTH &&
+           parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
 /* Reallocates memory for <*buffer> <threshold> bytes at a time>. */
-- 
2.43.0


From 7cb11ea736f30e3531c714051bf6a07be47c713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 19/60] fix: initialise the contents of patch lists before they
 are read

---
 src/drpm_make.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 88fefca..add774c 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -725,7 +725,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
     uint32_t magic;
     char *name = NULL;
@@ -881,7 +881,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
-- 
2.43.0


From 3be2366a45fd1ec725babb61010ee8004a02ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 20/60] fix: skip the contents of unused strings in patch lists

---
 src/drpm_make.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index add774c..e057cec 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -662,6 +662,8 @@ int rpml_get_string(int filedesc, char **ret)
             return DRPM_ERR_FORMAT;
         }
         (*ret)[len] = '\0';
+    } else {
+        return rpml_skip(filedesc, len);
     }
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 400f7fb5176bdfc938e08cdfc3052f2d4128515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 21/60] fix: read the digests of files in patch lists

---
 src/drpm_make.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index e057cec..f5ba7bf 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -841,9 +841,9 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
-- 
2.43.0


From 52d1eba9d0dca37935f31a2f03c91dad42bc3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 22/60] fix: refuse file names in patch lists that share more
 than the previous name

---
 src/drpm_make.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index f5ba7bf..f943ade 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -699,10 +699,16 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     new_filename_len = off + len + 1;
 
+    /* the prefix shared with the previous name */
+    if (off > ((filename == NULL) ? 0 : strlen(filename)))
+        return DRPM_ERR_FORMAT;
+
     if (new_filename_len > filename_len) {
         if ((filename = realloc(filename, new_filename_len)) == NULL)
             return DRPM_ERR_MEMORY;
         filename_len = new_filename_len;
+        *filename_ret = filename;
+        *filename_len_ret = filename_len;
     }
 
     if (read(filedesc, filename + off, len) != len)
@@ -710,9 +716,6 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
-- 
2.43.0


From ef1b2c1ce8121c840046bb90812fec60ee90c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 23/60] fix: store the file names of patch lists and release
 them on errors

---
 src/drpm_make.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index f943ade..c448d71 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -732,6 +732,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
     char *filename = NULL;
     uint32_t filename_len = 0;
     const char *fname;
+    struct patch_file *file;
     uint32_t magic;
     char *name = NULL;
     char *evr = NULL;
@@ -754,7 +755,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
@@ -782,6 +783,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
             strcpy(patch->files[patch->file_count].name, filename);
             patch->files[patch->file_count].mode = S_IFREG;
@@ -805,18 +807,23 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 
         fname = (strncmp(filename, "./", 2) == 0) ? filename + 2 : filename;
 
-        if ((patch->files[patch->file_count].name = malloc(strlen(fname) + 1)) == NULL) {
+        file = patch->files + patch->file_count;
+
+        if ((file->name = malloc(strlen(fname) + 1)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
 
-        patch->files[patch->file_count].flags = RPMFILE_NONE;
-        memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        patch->file_count++;
+
+        strcpy(file->name, fname);
+        file->flags = RPMFILE_NONE;
+        memset(file->md5, 0, MD5_DIGEST_LENGTH);
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -837,23 +844,21 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
                 if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
                     (parse_be32(buf) > 0 &&
-                     read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
-
-        patch->file_count++;
     }
 
 cleanup:
-- 
2.43.0


From 21c45b2ad4934264b149295a9cee6e64621cf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 24/60] fix: allocate file entries of a print in full, and do
 not require digests

---
 src/drpm_make.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index c448d71..7856bca 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -878,8 +878,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -921,7 +921,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if (file_count > 0 &&
+            (rpmprint->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
@@ -937,10 +938,6 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             strcpy(rpmprint->files[i].name, fname);
             rpmprint->files[i].mode = files[i].mode;
             rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) {
-                error = DRPM_ERR_FORMAT;
-                goto cleanup_fail;
-            }
         }
         break;
     case MAGIC_RPML:
@@ -958,6 +955,13 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
     close(filedesc);
 
     return error;
-- 
2.43.0


From 9dd84e0ae129081a9f359df018cfa993884df29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 25/60] fix: close the files of patch lists only once

---
 src/drpm_make.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 7856bca..e06051b 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -898,8 +898,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     patchrpm = &(*patches)->patchrpm;
 
     if ((filedesc = open(oldpatchrpm, O_RDONLY)) < 0) {
-        error = DRPM_ERR_IO;
-        goto cleanup_fail;
+        patches_destroy(patches);
+        return DRPM_ERR_IO;
     }
 
     if ((error = read_rpmlist(filedesc, patchrpm, false)) != DRPM_ERR_OK)
@@ -908,8 +908,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     close(filedesc);
 
     if ((filedesc = open(oldrpmprint, O_RDONLY)) < 0) {
-        error = DRPM_ERR_IO;
-        goto cleanup_fail;
+        patches_destroy(patches);
+        return DRPM_ERR_IO;
     }
 
     if ((error = read_be32(filedesc, &magic)) != DRPM_ERR_OK)
-- 
2.43.0


From 2c33490f6b1d7d7bd9c12fe8184b1fe64eccc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 26/60] fix: forget strings of truncated patch lists that are
 freed

---
 src/drpm_make.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index e06051b..22a6c9e 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -659,6 +659,7 @@ int rpml_get_string(int filedesc, char **ret)
             return DRPM_ERR_MEMORY;
         if (read(filedesc, *ret, len) != len) {
             free(*ret);
+            *ret = NULL;
             return DRPM_ERR_FORMAT;
         }
         (*ret)[len] = '\0';
-- 
2.43.0


From 3964a08414dee5fbf90cf7688af1318cbd134e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 27/60] fix: keep the file names of options that are copied to
 themselves

---
 src/drpm_options.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..b6133e2 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -86,6 +86,9 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_dst == opts_src)
+        return DRPM_ERR_OK;
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
-- 
2.43.0


From ef2f7a9527507de42f00b61c68584b66161aa475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 28/60] fix: report options that cannot be copied, and release
 them when they are refused

---
 src/drpm.c         | 10 ++++++----
 src/drpm_options.c |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 49877c8..c0455a4 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -328,11 +328,13 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
 
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
-    else
-        drpm_make_options_copy(&opts, user_opts);
+    else if ((error = drpm_make_options_copy(&opts, user_opts)) != DRPM_ERR_OK)
+        goto cleanup;
 
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    if (rpm_only && opts.version < 3) {
+        error = DRPM_ERR_ARGS;
+        goto cleanup;
+    }
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
diff --git a/src/drpm_options.c b/src/drpm_options.c
index b6133e2..a9a59c9 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -108,19 +108,19 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
 
     if (opts_src->seqfile != NULL) {
         if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->seqfile, opts_src->seqfile);
     }
 
     if (opts_src->oldrpmprint != NULL) {
         if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
     }
 
     if (opts_src->oldpatchrpm != NULL) {
         if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
     }
 
-- 
2.43.0


From a7cb9a8e3aa3e72748088ba52bae2a6d60234832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 29/60] fix: refuse to destroy options that do not exist

---
 src/drpm_options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index a9a59c9..301cb62 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -44,7 +44,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
-- 
2.43.0


From ac8ba1a135b2f682bd29f7ca1c3f6abc0d069f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 30/60] fix: release the delta and output file when applying
 from disk is refused

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index c0455a4..45a87f4 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -576,11 +576,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 5e4da8b43791836ce86478f6b60b1e7371797b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 31/60] Allow small block limits, guarded by
 DRPM_VERIF_SMALL_BLOCKS

---
 src/drpm_block.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 4a01e7d..25c6461 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -34,10 +34,18 @@
 #include <sys/wait.h>
 #include <fcntl.h>
 
+#ifdef DRPM_VERIF_SMALL_BLOCKS
+/* small limits, with which small inputs reach every boundary and paging */
+#define MAX_OPEN_FILES 3
+#define MAX_CORE_BLOCKS 4
+
+#define BLOCK_SIZE (1 << 7)
+#else
 #define MAX_OPEN_FILES 50
 #define MAX_CORE_BLOCKS 5000
 
 #define BLOCK_SIZE (1 << 13)
+#endif
 
 #define BLK_FREE 0
 #define BLK_CORE 1
-- 
2.43.0


From 2f40b738013a294651fb4464069048a866770211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 32/60] fix: leave no blocks behind when they cannot be created

---
 src/drpm_block.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 25c6461..03c0e9c 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -168,6 +168,8 @@ int blocks_create(struct blocks **blks_ret,
     if (blks_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *blks_ret = NULL;
+
     if (block_count >= UINT32_MAX)
         return DRPM_ERR_OVERFLOW;
 
@@ -232,6 +234,11 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
-- 
2.43.0


From b0f61eb27c2d932f0aba7310b2d6704fde3aebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 33/60] fix: keep page blocks that cannot be written on their
 list

---
 src/drpm_block.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 03c0e9c..fa4e072 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -487,6 +487,11 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
             break;
 
     if (new == NULL) {
+        if (blks->page_filedesc < 0) {
+            if ((blks->page_filedesc = mkstemp(template)) < 0)
+                return DRPM_ERR_IO;
+            unlink(template);
+        }
         if ((new = malloc(sizeof(struct block))) == NULL)
             return DRPM_ERR_MEMORY;
         new->type = BLK_PAGE;
@@ -494,21 +499,12 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
         new->next = blks->page_blocks;
         blks->page_blocks = new;
         blks->page_blocks_count++;
-        if (blks->page_filedesc < 0) {
-            if ((blks->page_filedesc = mkstemp(template)) < 0) {
-                free(new);
-                return DRPM_ERR_IO;
-            }
-            unlink(template);
-        }
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From 92e692acc7829ba5422f52c2fb1e9341b668b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 34/60] fix: clean up after a diff that fails for want of
 memory

---
 src/drpm_diff.c   | 10 ++++++----
 src/drpm_search.c |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..2be8dc6 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -221,7 +221,7 @@ int make_diff(const unsigned char *old, size_t old_len,
 
         if (!resize32((void **)&diff_copies, diff_copies_len, sizeof(struct diff_copy))) {
             error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            goto cleanup_fail;
         }
 
         diff_copies[diff_copies_len].new_off = new_pos_prev + len_forward;
@@ -261,8 +261,10 @@ int make_diff(const unsigned char *old, size_t old_len,
     goto cleanup;
 
 cleanup_fail:
-    if (addblk)
+    if (addblk) {
         free(*add_block_ret);
+        *add_block_ret = NULL;
+    }
 
 cleanup:
     free(diff_copies);
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 435ce43..f6f69c6 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -201,6 +201,9 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
 void hash_free(struct hash **hsh)
 {
+    if (*hsh == NULL)
+        return;
+
     free((*hsh)->hash_table);
     free(*hsh);
 }
-- 
2.43.0


From 7f787558ae156d61c749917a9ceff8081ca0b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 35/60] fix: do not release a package that was not read for an
 identity delta

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 22a6c9e..0543c2a 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -1036,7 +1036,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
-- 
2.43.0


From a9b2d45acb68b51a6c8ec062e234dc7191b4e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 36/60] fix: do not free reallocated archives twice

---
 src/drpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 45a87f4..0f391fd 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -419,12 +419,15 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
-- 
2.43.0


From c41b203ed6ab48a198a15411dd254a410d87e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 37/60] fix: release packages that cannot be read or used to
 the end

---
 src/drpm.c      | 7 ++++---
 src/drpm_read.c | 4 ++--
 src/drpm_rpm.c  | 6 ++++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 0f391fd..ecb15fc 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -375,6 +375,10 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             goto cleanup;
     }
 
+    /* the delta is responsible for the target package from here on */
+    if (!rpm_only)
+        delta.head.tgt_rpm = alone ? solo_rpm : new_rpm;
+
     /* checking if archive is in CPIO format */
     if ((error = rpm_get_payload_format(alone ? solo_rpm : new_rpm, &payload_format)) != DRPM_ERR_OK)
         goto cleanup;
@@ -393,9 +397,6 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
         delta.comp_level = delta.tgt_comp_level;
     }
 
-    if (!rpm_only)
-        delta.head.tgt_rpm = alone ? solo_rpm : new_rpm;
-
     /* reading source and target NEVRs */
     if ((error = rpm_get_nevr(alone ? solo_rpm : old_rpm, &delta.src_nevr)) != DRPM_ERR_OK ||
         (rpm_only && (error = rpm_get_nevr(new_rpm, &delta.head.tgt_nevr)) != DRPM_ERR_OK))
diff --git a/src/drpm_read.c b/src/drpm_read.c
index fb612dd..5db9abc 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -451,11 +451,11 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
+    delta->head.tgt_rpm = rpmst;
+
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-    delta->head.tgt_rpm = rpmst;
-
     return DRPM_ERR_OK;
 }
 
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 356dee8..f534e7f 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -286,8 +286,10 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     rpm_init(*rpmst);
 
     // hack: extra '\0' to prevent rpmlib from compressing (see rpmio.c)
-    if ((file = Fopen(filename, "rb\0")) == NULL)
+    if ((file = Fopen(filename, "rb\0")) == NULL) {
+        rpm_destroy(rpmst);
         return DRPM_ERR_IO;
+    }
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
@@ -343,7 +345,7 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     goto cleanup;
 
 cleanup_fail:
-    rpm_free(*rpmst);
+    rpm_destroy(rpmst);
 
 cleanup:
     free(signature);
-- 
2.43.0


From a9d03616ba171eb4f7f41240002a73d4bb9bc416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 38/60] fix: report errors of closing the package being written

---
 src/drpm.c     | 3 ++-
 src/drpm_rpm.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index ecb15fc..0bb5850 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -769,7 +769,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index f534e7f..19675aa 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -542,7 +542,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
-- 
2.43.0


From 9ae5b47d731f8d28b49baffc5bb8303ad8f32616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 39/60] fix: release everything and report every error when
 writing a delta or sequence fails

---
 src/drpm_write.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..438e97d 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
@@ -266,7 +272,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
@@ -287,11 +294,13 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From a13bf4d6ef03b447e763584f5bc9569c6a01efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 40/60] fix: leave no freed data behind when the written data
 cannot be collected

---
 src/drpm_write.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 438e97d..e125067 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -387,6 +387,7 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
 
     if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From dd543e5dfbee96470ed9ccf27c12316d52dbbea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 41/60] fix: release the sequence when the archive cannot be
 parsed

---
 src/drpm_make.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 0543c2a..a763e5a 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -101,6 +101,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -108,8 +109,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -306,7 +308,7 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
     MD5_CTX seq_md5;
     unsigned char seq_md5_digest[MD5_DIGEST_LENGTH];
     struct files_seq seq = SEQ_INIT;
-    unsigned char *seq_files = NULL;
+    unsigned char *seq_files;
     size_t seq_files_len;
 
     unsigned short padding_bytes;
@@ -614,7 +616,7 @@ cleanup:
     }
     free(files);
     free(name_buffer);
-    free(seq_files);
+    free(seq.data);
 
     return error;
 }
-- 
2.43.0


From 088eab75879bfe3a809fb1e2677d87fd59a82608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 42/60] fix: release the object of a delta that cannot be
 converted

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 0bb5850..384946a 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
-- 
2.43.0


From c3ca038ba4a5653a5aee5b1ea281e51ba4280323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 43/60] fix: release the output buffer when zstd decompression
 fails

---
 src/drpm_decompstrm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..bded22b 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -759,23 +759,28 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
+        if (ZSTD_isError(ret)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     }
 
+    free(buffOut);
+
     strm->comp_size += in_len;
 
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
         return DRPM_ERR_OTHER;
 
-    free(buffOut);
     return DRPM_ERR_OK;
 }
 #endif
-- 
2.43.0


From b1e8d670045d5b2599ab01ca6c93fda529740fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 44/60] fix: leave no freed hash table behind

---
 src/drpm_search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index f6f69c6..da25058 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -178,6 +178,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From 0994f5e09adf039afd61f5ee86ae0c6a5f20a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 45/60] fix: do not release the header of the package database
 twice

---
 src/drpm_rpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 19675aa..ed94a20 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1117,7 +1117,9 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
         goto cleanup_fail;
     }
 
-    if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
+    error = rpm_export_header(*rpmst, &header, &header_size);
+    (*rpmst)->header = NULL; // belongs to the iterator
+    if (error != DRPM_ERR_OK)
         goto cleanup_fail;
 
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
-- 
2.43.0


From 7dcbb717a10ac9067b00548f6442c31d1ce3dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 46/60] fix: initialize the package to be read from the
 database before it can be released

---
 src/drpm_rpm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index ed94a20..4d2f84f 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1063,14 +1063,18 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
     rpm_init(*rpmst);
 
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
+        error = DRPM_ERR_MEMORY;
+        goto cleanup_fail;
+    }
+
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
-- 
2.43.0


From 5f7904bf9014bdf3d2e36ab3624e13e408ea6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 47/60] fix: release the exported header of an installed
 package

---
 src/drpm_rpm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 4d2f84f..f028378 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1144,6 +1144,7 @@ cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
     free(str);
+    free(header);
 
     return error;
 }
-- 
2.43.0


From a6e2628d39be29946557150d3d3fc339d77741fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 48/60] fix: refuse a package whose compressed payload is cut
 short or damaged

---
 src/drpm_decompstrm.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index bded22b..613ffe5 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -64,6 +64,7 @@ struct decompstrm {
 #endif
     } stream;
     bool lzip_eof;
+    bool ended; // the end of the compressed data has been found
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
     size_t comp_size;
@@ -290,6 +291,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
     (*strm)->buffer_len = buffer_len;
+    (*strm)->ended = false;
 
     if (MAGIC_GZIP(magic)) {
         if (comp != NULL)
@@ -330,6 +332,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
             *comp = DRPM_COMP_NONE;
         (*strm)->read_chunk = readchunk;
         (*strm)->finish = NULL;
+        (*strm)->ended = true;
     }
 
     return DRPM_ERR_OK;
@@ -425,6 +428,8 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         case DRPM_ERR_OK:
             break;
         case DRPM_ERR_FORMAT: // nothing more to read
+            if (!strm->ended)
+                return error; // truncated or malformed
             eof = true;
             break;
         default:
@@ -512,6 +517,9 @@ int readchunk_bzip2(struct decompstrm *strm)
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
         switch (BZ2_bzDecompress(&strm->stream.bzip2)) {
+        case BZ_STREAM_END:
+            strm->ended = true;
+            break;
         case BZ_DATA_ERROR:
         case BZ_DATA_ERROR_MAGIC:
             return DRPM_ERR_FORMAT;
@@ -565,6 +573,9 @@ int readchunk_gzip(struct decompstrm *strm)
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
         switch (inflate(&strm->stream.gzip, Z_SYNC_FLUSH)) {
+        case Z_STREAM_END:
+            strm->ended = true;
+            break;
         case Z_DATA_ERROR:
         case Z_NEED_DICT:
         case Z_STREAM_ERROR:
@@ -620,7 +631,9 @@ int readchunk_lzma(struct decompstrm *strm)
         strm->stream.lzma.avail_out = CHUNK_SIZE;
         switch (lzma_code(&strm->stream.lzma, LZMA_RUN)) {
         case LZMA_OK:
+            break;
         case LZMA_STREAM_END:
+            strm->ended = true;
             break;
         case LZMA_FORMAT_ERROR:
         case LZMA_OPTIONS_ERROR:
@@ -694,6 +707,7 @@ int readchunk_lzip(struct decompstrm *strm)
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
         } while (!LZ_decompress_finished(strm->stream.lzip));
+        strm->ended = true;
     } else {
         while (written < in_len) {
             if (LZ_decompress_write_size(strm->stream.lzip) > 0) {
@@ -763,6 +777,7 @@ int readchunk_zstd(struct decompstrm *strm)
             free(buffOut);
             return DRPM_ERR_OTHER;
         }
+        strm->ended = (ret == 0);
         if (output.pos == 0)
             continue;
         if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
-- 
2.43.0


From 7b22864f317329e76bc0cb494385d79ef0a47f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 49/60] fix: copy only the rest of a link target that starts in
 an earlier block

When a file is restored from its prelinked form, the blocks in front of it
are filled again. A link target crossing the border of two blocks was copied
with its whole length from the middle, reading behind its end and possibly
writing behind the block.
---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index fa4e072..a334b3f 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1125,7 +1125,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
-- 
2.43.0


From 226bc33ae6f561ba56b8e24e52c94059a390d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 50/60] fix: do not wait forever for prelink when the process
 ignores SIGCHLD

waitpid() then fails with ECHILD, again and again.
---
 src/drpm_apply.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index f6e1dee..bb543d5 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -27,6 +27,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/stat.h>
@@ -656,7 +657,7 @@ int prelink_open(const char *filename, int *filedesc)
         _exit(1);
     }
 
-    while (waitpid(pid, &status, 0) == (pid_t)-1);
+    while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
     fd = open(template, O_RDONLY);
     unlink(template);
-- 
2.43.0


From 7cc95cf9df11f999cfde890031eef1ce4800aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 51/60] fix: do not close a descriptor twice when undoing
 prelink fails

---
 src/drpm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index a334b3f..93817bb 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1158,6 +1158,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
+                                filedesc = -1;
                                 if ((error = prelink_open(blks->files[cpio->index].name, &filedesc)) != DRPM_ERR_OK)
                                     goto cleanup;
                             }
-- 
2.43.0


From 4bc815585d0ee8094f5d85ffce0e433bcff7b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 52/60] fix: report a failing read when looking for the
 sections of a prelinked file

The file was taken for one that is not prelinked, and its changed content
went into the new package.
---
 src/drpm_apply.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index bb543d5..3f73d16 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -560,7 +560,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     }
 
     soff = elf64(is64 ? buf + 40 : buf + 32, le, is64);
-    if (soff == (off_t)~0) {
+    if (soff < 0) {
         is_prelinked = false;
         goto cleanup;
     }
@@ -583,7 +583,12 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    if (pread(fd, sects, snum * ssiz, soff) != snum * ssiz) {
+    if ((read_len = pread(fd, sects, snum * ssiz, soff)) < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
+    if (read_len != snum * ssiz) {
         is_prelinked = false;
         goto cleanup;
     }
@@ -596,7 +601,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
 
     soff = elf64(is64 ? sect + 24 : sect + 16, le, is64);
     slen = elf64(is64 ? sect + 32 : sect + 20, le, is64);
-    if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
+    if (soff < 0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
     }
@@ -606,7 +611,12 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    if (pread(fd, strsect, slen, soff) != (ssize_t)slen) {
+    if ((read_len = pread(fd, strsect, slen, soff)) < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
+    if (read_len != (ssize_t)slen) {
         is_prelinked = false;
         goto cleanup;
     }
-- 
2.43.0


From da5d09cb6e32ea89662ecdd3835bfea71dc56590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 53/60] fix: report a failing seek in a package as an I/O error

---
 src/drpm_rpm.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index f028378..5a7f4d7 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -293,10 +293,18 @@ int rpm_read(struct rpm **rpmst, const char *filename,
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
-        ((*rpmst)->signature = headerRead(file, HEADER_MAGIC_YES)) == NULL ||
-        (file_pos = Ftell(file)) < 0 ||
-        Fseek(file, RPMSIG_PADDING(file_pos), SEEK_CUR) < 0 ||
-        ((*rpmst)->header = headerRead(file, HEADER_MAGIC_YES)) == NULL) {
+        ((*rpmst)->signature = headerRead(file, HEADER_MAGIC_YES)) == NULL) {
+        error = Ferror(file) ? DRPM_ERR_IO : DRPM_ERR_FORMAT;
+        goto cleanup_fail;
+    }
+
+    if ((file_pos = Ftell(file)) < 0 ||
+        Fseek(file, RPMSIG_PADDING(file_pos), SEEK_CUR) < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup_fail;
+    }
+
+    if (((*rpmst)->header = headerRead(file, HEADER_MAGIC_YES)) == NULL) {
         error = Ferror(file) ? DRPM_ERR_IO : DRPM_ERR_FORMAT;
         goto cleanup_fail;
     }
-- 
2.43.0


From bd2c6247a29453f5dbfe71f7adb5592ecb80bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 54/60] fix: report a failing read of an installed file, not a
 mismatch

A file of no recorded content that prelink changed was judged by an
uninitialized variable, too.
---
 src/drpm_apply.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 3f73d16..86d9f50 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -335,7 +335,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     unsigned char buf[BUFFER_SIZE];
     struct checksum chsm;
     unsigned char chsm_digest[MAX(MD5_DIGEST_LENGTH, SHA256_DIGEST_LENGTH)];
-    ssize_t read_len;
+    ssize_t read_len = 0;
     struct stat stats;
     bool prelink;
 
@@ -364,6 +364,10 @@ int check_full(const char *filename, unsigned short digest_algo,
                 goto cleanup;
             filesize -= read_len;
         }
+        if (read_len < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
     }
 
     while (filesize > 0 && (read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
@@ -374,6 +378,11 @@ int check_full(const char *filename, unsigned short digest_algo,
         filesize -= read_len;
     }
 
+    if (read_len < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     if ((error = checksum_final(&chsm, chsm_digest)) != DRPM_ERR_OK)
         goto cleanup;
 
@@ -396,7 +405,7 @@ int check_prelink(const char *filename, unsigned short digest_algo,
     unsigned char buf[BUFFER_SIZE];
     struct checksum chsm;
     unsigned char chsm_digest[MAX(MD5_DIGEST_LENGTH, SHA256_DIGEST_LENGTH)];
-    ssize_t read_len;
+    ssize_t read_len = 0;
 
     if ((error = prelink_open(filename, &filedesc)) != DRPM_ERR_OK)
         return error;
-- 
2.43.0


From 9aa34d363fe2c7fb1b99d822d03c8769ece72903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 55/60] fix: report a failing read of an installed file as an
 I/O error

---
 src/drpm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 93817bb..8b1f7bd 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -937,6 +937,7 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
     size_t i;
     size_t file_off;
     size_t read_len;
+    ssize_t got;
     struct open_file *file;
     bool prelinked;
 
@@ -1004,8 +1005,8 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     error = DRPM_ERR_IO;
                     break;
                 }
-                if (read(file->filedesc, buf_ptr, read_len) != (ssize_t)read_len) {
-                    error = DRPM_ERR_FORMAT;
+                if ((got = read(file->filedesc, buf_ptr, read_len)) != (ssize_t)read_len) {
+                    error = got < 0 ? DRPM_ERR_IO : DRPM_ERR_FORMAT;
                     break;
                 }
                 file->offset = file_off + read_len;
-- 
2.43.0


From a7a32805660a89dd21aa3ec73a8c615930e37cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 56/60] fix: refuse lzip data that is cut short

---
 src/drpm_decompstrm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 613ffe5..b9d8bc6 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -99,6 +99,10 @@ static int lzip_error(struct decompstrm *strm)
         return DRPM_ERR_PROG;
     case LZ_mem_error:
         return DRPM_ERR_MEMORY;
+    case LZ_header_error:
+    case LZ_unexpected_eof:
+    case LZ_data_error:
+        return DRPM_ERR_FORMAT;
     default:
         return DRPM_ERR_OTHER;
     }
@@ -707,6 +711,9 @@ int readchunk_lzip(struct decompstrm *strm)
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
         } while (!LZ_decompress_finished(strm->stream.lzip));
+        /* finished may also mean that there is nothing left to come */
+        if ((error = lzip_error(strm)) != DRPM_ERR_OK)
+            return error;
         strm->ended = true;
     } else {
         while (written < in_len) {
-- 
2.43.0


From 503e8c302156d8e99f0120b0062f098faef95f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 57/60] fix: a payload compression that deltas cannot record is
 no programming error

---
 src/drpm_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index e125067..d39aacf 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -104,7 +104,7 @@ int write_deltarpm(struct deltarpm *delta)
 
     if (delta->version >= 2) {
         if (!deltarpm_encode_comp(&tgt_comp, delta->tgt_comp, delta->tgt_comp_level)) {
-            error = DRPM_ERR_PROG;
+            error = DRPM_ERR_FORMAT;
             goto cleanup;
         }
 
-- 
2.43.0


From 24b45bcf333319764adc39a6737b6664a0eedee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 58/60] fix: a missing payload format is no lack of memory

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 5a7f4d7..c9d25a0 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -707,7 +707,7 @@ int rpm_get_payload_format(struct rpm *rpmst, unsigned short *payfmt)
         return DRPM_ERR_PROG;
 
     if ((payload_format = headerGetString(rpmst->header, RPMTAG_PAYLOADFORMAT)) == NULL)
-        return DRPM_ERR_MEMORY;
+        return DRPM_ERR_FORMAT;
 
     if (strcmp(payload_format, "drpm") == 0) {
         *payfmt = RPM_PAYLOAD_FORMAT_DRPM;
-- 
2.43.0


From f05cd74771b90454853107a8ef2922b6c814fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 59/60] fix: report data that zstd cannot decompress as
 malformed

---
 src/drpm_decompstrm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index b9d8bc6..c87d22e 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -36,6 +36,7 @@
 #endif
 #ifdef WITH_ZSTD
 #include <zstd.h>
+#include <zstd_errors.h>
 #endif
 #include <openssl/md5.h>
 
@@ -782,7 +783,9 @@ int readchunk_zstd(struct decompstrm *strm)
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
         if (ZSTD_isError(ret)) {
             free(buffOut);
-            return DRPM_ERR_OTHER;
+            strm->ended = false;
+            return ZSTD_getErrorCode(ret) == ZSTD_error_memory_allocation ?
+                   DRPM_ERR_MEMORY : DRPM_ERR_FORMAT;
         }
         strm->ended = (ret == 0);
         if (output.pos == 0)
-- 
2.43.0


From cac5785c1a9b28e2fb722efaa171b8c7ec719c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:48 +0000
Subject: [PATCH 60/60] fix: count block cleanups for each application, not for
 the process

---
 src/drpm_block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 8b1f7bd..5b94081 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -82,6 +82,7 @@ struct blocks {
     struct block *free_core_blocks;
     struct block *core_blocks;
     size_t core_blocks_count;
+    size_t cleanup_count;
 
     struct block *page_blocks;
     size_t page_blocks_count;
@@ -325,7 +326,6 @@ int blocks_next(struct blocks *blks, unsigned char buffer[BLOCK_SIZE], size_t *b
 /* gets new block and fills it */
 int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t copy_cnt)
 {
-    static size_t cleanup_count = 0;
     int error;
     struct block *blk;
     struct block *page_blk;
@@ -342,7 +342,7 @@ int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t cop
     }
 
     if ((blk = get_free_core_block(blks)) == NULL) {
-        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++cleanup_count % 8) != 0) {
+        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++blks->cleanup_count % 8) != 0) {
             if ((error = new_core_block(blks, &blk)) != DRPM_ERR_OK)
                 return error;
         } else {
-- 
2.43.0

