From 8b7c63fb3d9e1b77ed5358cc082a2dcc39a14710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 01/65] fix: release a hash table's user data when the table is
 freed

---
 src/libcork/ds/hash-table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..fcdf072 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -194,6 +194,7 @@ cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
+    cork_free_user_data(table);
     cork_delete(struct cork_hash_table, table);
 }
 
@@ -207,6 +208,7 @@ void
 cork_hash_table_set_user_data(struct cork_hash_table *table,
                               void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(table);
     table->user_data = user_data;
     table->free_user_data = free_user_data;
 }
-- 
2.43.0


From 47a1907aba004b804d102b8de046b3f3b070d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 02/65] fix: clearing an array must not remove already removed
 elements again

---
 src/libcork/ds/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..ab02835 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -128,7 +128,7 @@ cork_raw_array_clear(struct cork_raw_array *array)
     if (array->priv->remove != NULL) {
         size_t  i;
         char  *element = array->items;
-        for (i = 0; i < array->priv->initialized_count; i++) {
+        for (i = 0; i < array->size; i++) {
             array->priv->remove(array->priv->user_data, element);
             element += array->priv->element_size;
         }
-- 
2.43.0


From 47b24d472492f8387c178a2ca7f2636a6ed4acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 03/65] fix: remove the elements of an array again when copying
 into it fails

---
 src/libcork/ds/array.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index ab02835..7e594ca 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -313,7 +313,13 @@ cork_raw_array_copy(struct cork_raw_array *dest,
         const char  *src_element = src->items;
         dest_element = dest->items;
         for (i = 0; i < src->size; i++) {
-            rii_check(copy(user_data, dest_element, src_element));
+            if (CORK_UNLIKELY(copy(user_data, dest_element, src_element) != 0)) {
+                /* Every element has been initialized or reused, so they all
+                 * need to be removed again. */
+                dest->size = src->size;
+                cork_array_clear(dest);
+                return -1;
+            }
             dest_element += dest->priv->element_size;
             src_element += dest->priv->element_size;
         }
-- 
2.43.0


From 8eeca74329f884740bf96d4cabc50ce75d5cd821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 04/65] fix: keep initialized slots intact when removing from
 an array without a remove callback

---
 src/libcork/ds/array.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 7e594ca..437e8b4 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -234,8 +234,9 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
     char* end_of_array = array->items + (array->size * element_size);
 
     array->size -= count;
-    if (array->priv->remove == NULL) {
-        /* If there isn't a cleanup callback, just move the array contents
+    if (array->priv->remove == NULL && array->priv->init == NULL &&
+        array->priv->reuse == NULL && array->priv->done == NULL) {
+        /* If there aren't any callbacks, just move the array contents
          * directly. */
         if (end_of_removed < end_of_array) {
             memmove(start_of_removed, end_of_removed, remaining * element_size);
@@ -254,7 +255,8 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
 
         /* Then call the cleanup callback on all of the elements to be removed,
          * which are now guaranteed to be at the end of the array. */
-        while (start_of_removed < end_of_removed) {
+        while (array->priv->remove != NULL &&
+               start_of_removed < end_of_removed) {
             array->priv->remove(array->priv->user_data, start_of_removed);
             start_of_removed += element_size;
         }
-- 
2.43.0


From b0c206bbee79916bc9bba75ee76d7840d851dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 05/65] fix: a failing printf format must not corrupt a
 buffer's size

---
 src/libcork/ds/buffer.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/buffer.c b/src/libcork/ds/buffer.c
index cf727ac..64f8300 100644
--- a/src/libcork/ds/buffer.c
+++ b/src/libcork/ds/buffer.c
@@ -110,15 +110,24 @@ void
 cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
                            va_list args)
 {
+    int  rc;
     size_t  format_size;
     va_list  args1;
 
     va_copy(args1, args);
-    format_size = vsnprintf(buffer->buf + buffer->size,
-                            buffer->allocated_size - buffer->size,
-                            format, args1);
+    rc = vsnprintf(buffer->buf + buffer->size,
+                   buffer->allocated_size - buffer->size,
+                   format, args1);
     va_end(args1);
 
+    /* If the content can't be formatted, leave the buffer as it was. */
+    if (CORK_UNLIKELY(rc < 0)) {
+        cork_buffer_ensure_size(buffer, buffer->size + 1);
+        ((char *) buffer->buf)[buffer->size] = '\0';
+        return;
+    }
+    format_size = rc;
+
     /* If the first call works, then set buffer->size and return. */
     if (format_size < (buffer->allocated_size - buffer->size)) {
         buffer->size += format_size;
-- 
2.43.0


From 230dc03c3f05640533e0aae11cc5b6ebecc4c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 06/65] fix: reject slices whose offset plus length wraps
 around

---
 src/libcork/ds/managed-buffer.c | 2 +-
 src/libcork/ds/slice.c          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..ea6b094 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= (buffer->size - offset))) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..ee14ca4 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
-- 
2.43.0


From 798831e148fecbc2fd60d4cca53b2bdc9c03401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 07/65] fix: count managed buffer references atomically, as
 documented

---
 src/libcork/ds/managed-buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index ea6b094..f0d8792 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -15,6 +15,7 @@
 #include "libcork/ds/managed-buffer.h"
 #include "libcork/ds/slice.h"
 #include "libcork/helpers/errors.h"
+#include "libcork/threads/atomics.h"
 
 
 /*-----------------------------------------------------------------------
@@ -140,7 +141,7 @@ cork_managed_buffer_ref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count + 1);
     */
 
-    self->ref_count++;
+    cork_int_atomic_add(&self->ref_count, 1);
     return self;
 }
 
@@ -154,7 +155,7 @@ cork_managed_buffer_unref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count - 1);
     */
 
-    if (--self->ref_count == 0) {
+    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {
         cork_managed_buffer_free(self);
     }
 }
-- 
2.43.0


From c9702fafce673cb03c10bb9ecde21298673d2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 08/65] fix: do not rewind a descriptor consumer when a write
 is interrupted

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..a38b2b9 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 90239bcc14c9b4949542703de5d61d83e4891f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 09/65] fix: pass a mode to open() so that O_CREAT gives
 defined permissions

---
 src/libcork/ds/file-stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index a38b2b9..4b3b68a 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -75,7 +75,7 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
                             const char *path, int flags)
 {
     int  fd;
-    rii_check_posix(fd = open(path, flags));
+    rii_check_posix(fd = open(path, flags, 0666));
     ei_check(cork_consume_fd(consumer, fd));
     rii_check_posix(close(fd));
     return 0;
@@ -206,7 +206,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     int  fd;
     struct cork_fd_consumer  *self;
 
-    rpi_check_posix(fd = open(path, flags));
+    rpi_check_posix(fd = open(path, flags, 0666));
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-- 
2.43.0


From 8f0da0d20c2c463b3fd404e3f8a68ec9ebd7f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 10/65] fix: close the file of a path consumer that never sees
 its end of stream

---
 src/libcork/ds/file-stream.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 4b3b68a..cf76a41 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -176,6 +176,7 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
     rii_check_posix(rc = close(self->fd));
+    self->fd = -1;
     return 0;
 }
 
@@ -187,6 +188,18 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    /* If the stream never reached its end, then the file is still open. */
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_delete(struct cork_fd_consumer, self);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -210,7 +223,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From f55ecbadfcb07420a96df9ba06d0bfdd08d9c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 11/65] fix: don't free members of a garbage cycle while others
 still refer to them

---
 src/libcork/core/gc.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..f9db258 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -44,6 +44,8 @@ struct cork_gc {
     size_t  root_count;
     /* The possible roots of garbage cycles */
     struct cork_gc_header  *roots[ROOTS_SIZE];
+    /* The members of garbage cycles found by the current collection */
+    struct cork_gc_header  *garbage;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +69,9 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object in the list of garbage that should be freed. */
+    struct cork_gc_header  *next;
 };
 
 /*
@@ -373,8 +378,11 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
+            /* Other members of the garbage cycles that we haven't visited yet
+             * might still refer to this object, so we can't free it until we've
+             * found all of the garbage. */
+            header->next = gc->garbage;
+            gc->garbage = header;
         }
     }
 }
@@ -394,6 +402,12 @@ cork_gc_collect_roots(struct cork_gc *gc)
         }
     }
     gc->root_count = 0;
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        gc->garbage = header->next;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
+    }
 }
 
 static void
-- 
2.43.0


From a4b0a6c45490856378c854ba8e77a71b042ccaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 12/65] fix: don't collect cycles in the middle of releasing
 objects

---
 src/libcork/core/gc.c | 55 ++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f9db258..ace70e2 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,7 @@
  * GC context life cycle
  */
 
+/* The number of possible roots that triggers a collection */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -40,10 +41,10 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of elements in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
     /* The members of garbage cycles found by the current collection */
     struct cork_gc_header  *garbage;
 };
@@ -70,7 +71,8 @@ struct cork_gc_header {
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
 
-    /* The next object in the list of garbage that should be freed. */
+    /* The next object in the list of possible roots, or in the list of garbage
+     * that should be freed. */
     struct cork_gc_header  *next;
 };
 
@@ -212,10 +214,9 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            header->next = gc->roots;
+            gc->roots = header;
+            gc->root_count++;
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -245,6 +246,11 @@ cork_gc_decref(void *obj)
     if (obj != NULL) {
         struct cork_gc  *gc = cork_gc_get();
         struct cork_gc_header  *header = cork_gc_get_header(obj);
+        /* We can only collect cycles while all of the reference counts are
+         * accurate, and not while we're in the middle of releasing objects. */
+        if (gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
+        }
         cork_gc_dec_ref_count(header);
         DEBUG("Decrementing %p -> %d\n",
               obj, cork_gc_get_ref_count(header));
@@ -286,20 +292,21 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  **prev = &gc->roots;
+    struct cork_gc_header  *header;
+    while ((header = *prev) != NULL) {
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
             DEBUG("    cork_gc_mark_gray(%p)\n",
                   cork_gc_get_object(header));
             cork_gc_mark_gray(gc, header);
+            prev = &header->next;
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
             cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
+            *prev = header->next;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
                 DEBUG("  Freeing %p\n", header);
@@ -359,12 +366,9 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
@@ -390,16 +394,13 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    while (gc->roots != NULL) {
+        struct cork_gc_header  *header = gc->roots;
+        void  *obj = cork_gc_get_object(header);
+        gc->roots = header->next;
+        cork_gc_set_buffered(header, false);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
     }
     gc->root_count = 0;
     while (gc->garbage != NULL) {
-- 
2.43.0


From aa34debede17e3c1407ea2039144b660d48ebcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 13/65] fix: keep the objects of a memory pool aligned

---
 src/libcork/core/mempool.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..965e0bb 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -57,6 +57,24 @@ struct cork_mempool_block {
 #define cork_mempool_object_size(mp) \
     (sizeof(struct cork_mempool_object) + (mp)->element_size)
 
+/* The distance between two objects in a block, which keeps each object (and its
+ * header) aligned.  The size of a type is always a multiple of its alignment,
+ * so only sizes that are a multiple of 16 can need more than pointer
+ * alignment. */
+#define cork_mempool_alignment(mp) \
+    ((((mp)->element_size % 16) == 0)? 16: sizeof(struct cork_mempool_object))
+
+#define cork_mempool_object_stride(mp) \
+    ((cork_mempool_object_size(mp) + cork_mempool_alignment(mp) - 1) & \
+     ~(cork_mempool_alignment(mp) - 1))
+
+/* The offset of the first object's header in a block. */
+#define cork_mempool_first_object(mp) \
+    (((sizeof(struct cork_mempool_block) + \
+       sizeof(struct cork_mempool_object) + \
+       cork_mempool_alignment(mp) - 1) & ~(cork_mempool_alignment(mp) - 1)) - \
+     sizeof(struct cork_mempool_object))
+
 #define cork_mempool_get_header(obj) \
     (((struct cork_mempool_object *) (obj)) - 1)
 
@@ -155,10 +173,10 @@ cork_mempool_new_block(struct cork_mempool *mp)
     vblock = block;
 
     /* Divide the block's memory region into a bunch of objects. */
-    size_t  index = sizeof(struct cork_mempool_block);
-    for (index = sizeof(struct cork_mempool_block);
+    size_t  index;
+    for (index = cork_mempool_first_object(mp);
          (index + cork_mempool_object_size(mp)) <= mp->block_size;
-         index += cork_mempool_object_size(mp)) {
+         index += cork_mempool_object_stride(mp)) {
         struct cork_mempool_object  *obj = vblock + index;
         DEBUG("  New object at %p[%p]\n", cork_mempool_get_object(obj), obj);
         if (mp->init_object != NULL) {
-- 
2.43.0


From d829b59771054937c81dee4d70d9274184ff298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 14/65] fix: removing an environment variable must not free it
 twice

---
 src/libcork/posix/env.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..b79dffd 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -170,11 +170,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From 4407cf5168e500985136e0817624803c50193b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:14 +0000
Subject: [PATCH 15/65] fix: allow formatted values for the current environment

---
 src/libcork/posix/env.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index b79dffd..e535997 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -150,8 +150,11 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    /* env can be NULL, so we can't use its buffer here. */
+    struct cork_buffer  buffer = CORK_BUFFER_INIT();
+    cork_buffer_vprintf(&buffer, format, args);
+    cork_env_add_internal(env, name, buffer.buf);
+    cork_buffer_done(&buffer);
 }
 
 void
-- 
2.43.0


From 6e98b6ebc88f69e61662f2df6c9793051b4b290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:37 +0000
Subject: [PATCH 16/65] fix: don't divide by zero when allocating zero-sized
 elements

---
 include/libcork/core/allocator.h | 2 +-
 src/libcork/core/allocator.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..9d70ea0 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count < (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..c818f89 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,7 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count < (SIZE_MAX / size));
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From 72eae225c4d6544dfe7df95089e21755ca757ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 17/65] fix: the debugging allocator must pass on failures of
 its parent

---
 src/libcork/core/allocator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index c818f89..dc202bd 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -394,6 +394,9 @@ cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
     size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From 249827e6cd1dc2ea136b6194a3dac8879a50857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 18/65] fix: allow an error message to be built from the
 current one

---
 src/libcork/core/error.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..50bf2f1 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -98,6 +98,17 @@ cork_error_get(void)
 }
 
 
+/* The new message is always rendered into the other buffer, since its arguments
+ * might refer to the current message. */
+static void
+cork_error_swap_messages(struct cork_error *error)
+{
+    struct cork_buffer  *temp = error->other;
+    error->other = error->message;
+    error->message = temp;
+}
+
+
 /*-----------------------------------------------------------------------
  * Public error API
  */
@@ -138,8 +149,9 @@ cork_error_set_printf(cork_error code, const char *format, ...)
     struct cork_error  *error = cork_error_get();
     error->code = code;
     va_start(args, format);
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
     va_end(args);
+    cork_error_swap_messages(error);
 }
 
 void
@@ -147,7 +159,8 @@ cork_error_set_string(cork_error code, const char *str)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_set_string(error->message, str);
+    cork_buffer_set_string(error->other, str);
+    cork_error_swap_messages(error);
 }
 
 void
@@ -155,7 +168,8 @@ cork_error_set_vprintf(cork_error code, const char *format, va_list args)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
+    cork_error_swap_messages(error);
 }
 
 void
-- 
2.43.0


From 3f19247d2d9f4c257febd758ec8f9cb6d4e95457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 19/65] fix: let cleanup functions register more cleanup
 functions

---
 src/libcork/posix/process.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..78003b0 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -56,7 +56,7 @@ static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
 
 static void
-cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
+cork_cleanup_call_one(struct cork_dllist_item *item)
 {
     struct cork_cleanup_entry  *entry =
         cork_container_of(item, struct cork_cleanup_entry, item);
@@ -66,6 +66,7 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
      * of the functions that libcork registers frees the allocator instance that
      * we'd use to free the entry.  If we called the function first, the
      * allocator would be freed before we could use it to free the entry. */
+    cork_dllist_remove(item);
     cork_cleanup_entry_free(entry);
     function();
 }
@@ -73,7 +74,12 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    /* The cleanup functions might register more cleanup functions, so we can't
+     * just iterate through the list. */
+    while (!cork_dllist_is_empty(&cleanup_entries)) {
+        cork_cleanup_call_one(cork_dllist_start(&cleanup_entries));
+    }
+    cleanup_registered = false;
 }
 
 static void
-- 
2.43.0


From 39d245efbce42e1adb3c427705bd36e06f8d8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 20/65] fix: keep the error functions usable in later cleanup
 functions

---
 src/libcork/core/error.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 50bf2f1..6f434af 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -57,6 +57,7 @@ cork_error_free(struct cork_error *error)
 static struct cork_error * volatile  errors;
 
 cork_once_barrier(cork_error_list);
+cork_tls(struct cork_error *, cork_error_);
 
 static void
 cork_error_list_done(void)
@@ -67,6 +68,9 @@ cork_error_list_done(void)
         next = curr->next;
         cork_error_free(curr);
     }
+    /* Cleanup functions that run after us can still encounter errors. */
+    errors = NULL;
+    *cork_error__get() = NULL;
 }
 
 static void
@@ -75,9 +79,6 @@ cork_error_list_init(void)
     cork_cleanup_at_exit(0, cork_error_list_done);
 }
 
-
-cork_tls(struct cork_error *, cork_error_);
-
 static struct cork_error *
 cork_error_get(void)
 {
-- 
2.43.0


From 8a958f1da144ebbe6b199a2ea279177d683f9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 21/65] fix: read once-barriers with acquiring loads

---
 include/libcork/threads/basics.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/libcork/threads/basics.h b/include/libcork/threads/basics.h
index a356786..4eefa73 100644
--- a/include/libcork/threads/basics.h
+++ b/include/libcork/threads/basics.h
@@ -82,6 +82,11 @@ cork_thread_join(struct cork_thread *thread);
 #endif
 
 
+/* The barrier hands over whatever the initialization wrote to threads that only
+ * read the barrier, so those reads must be acquiring loads. */
+#define cork_once_load(ptr)        __atomic_load_n((ptr), __ATOMIC_ACQUIRE)
+#define cork_once_store(ptr, val)  __atomic_store_n((ptr), (val), __ATOMIC_RELEASE)
+
 #define cork_once_barrier(name) \
     static struct { \
         volatile int  barrier; \
@@ -90,7 +95,7 @@ cork_thread_join(struct cork_thread *thread);
 
 #define cork_once(name, call) \
     do { \
-        if (CORK_LIKELY(name##__once.barrier == 2)) { \
+        if (CORK_LIKELY(cork_once_load(&name##__once.barrier) == 2)) { \
             /* already initialized */ \
         } else { \
             /* Try to claim the ability to perform the initialization */ \
@@ -103,14 +108,16 @@ cork_thread_join(struct cork_thread *thread);
                 assert(result == 1); \
             } else { \
                 /* someone else is initializing, spin/wait until done */ \
-                while (name##__once.barrier != 2) { cork_pause(); } \
+                while (cork_once_load(&name##__once.barrier) != 2) { \
+                    cork_pause(); \
+                } \
             } \
         } \
     } while (0)
 
 #define cork_once_recursive(name, call) \
     do { \
-        if (CORK_LIKELY(name##__once.barrier == 2)) { \
+        if (CORK_LIKELY(cork_once_load(&name##__once.barrier) == 2)) { \
             /* already initialized */ \
         } else { \
             /* Try to claim the ability to perform the initialization */ \
@@ -118,19 +125,21 @@ cork_thread_join(struct cork_thread *thread);
             if (CORK_LIKELY(prior_state == 0)) { \
                 CORK_ATTR_UNUSED int  result; \
                 /* we get to initialize */ \
-                name##__once.initializing_thread = \
-                    cork_current_thread_get_id(); \
+                cork_once_store(&name##__once.initializing_thread, \
+                                cork_current_thread_get_id()); \
                 call; \
                 result = cork_int_cas(&name##__once.barrier, 1, 2); \
                 assert(result == 1); \
             } else { \
                 /* someone else is initializing, is it us? */ \
-                if (name##__once.initializing_thread == \
+                if (cork_once_load(&name##__once.initializing_thread) == \
                     cork_current_thread_get_id()) { \
                     /* yep, fall through to let our recursion continue */ \
                 } else { \
                     /* nope; wait for the initialization to finish */ \
-                    while (name##__once.barrier != 2) { cork_pause(); } \
+                    while (cork_once_load(&name##__once.barrier) != 2) { \
+                        cork_pause(); \
+                    } \
                 } \
             } \
         } \
-- 
2.43.0


From 8c914141b666b4122e513a53b97d69145aa61f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:15 +0000
Subject: [PATCH 22/65] fix: swap the bytes of a whole argument expression

The byte-swapping macros take any expression, but the cast inside them applied
to the first operand of an unparenthesized one only, so CORK_SWAP_UINT16(x >> 16)
swapped ((uint16_t) x) >> 16.
---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From aa290a4f5be63f5b562d4ed31c01da735446b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 23/65] fix: reject IPv4 addresses with empty octets

".1.2.3" and "1..2.3" were accepted as 0.1.2.3 and 1.0.2.3.
---
 src/libcork/core/ip-address.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..64a0162 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -66,6 +66,10 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 if (CORK_UNLIKELY(octets == 3)) {
                     goto parse_error;
                 }
+                /* An octet has to contain at least one digit. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet)) {
+                    goto parse_error;
+                }
                 DEBUG("octet %u = %u\n", octets, digit);
                 result[octets] = digit;
                 digit = 0;
-- 
2.43.0


From d015cf61a3a92b629bf77beae9c0387e3176d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 24/65] fix: reject IPv6 addresses whose :: stands for nothing

"1:2:3:4::5:6:7:8" was accepted.
---
 src/libcork/core/ip-address.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 64a0162..5c03ded 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -305,6 +305,11 @@ cork_ipv6_init(struct cork_ipv6 *addr, const char *str)
     }
 
     if (!double_colon_allowed) {
+        /* A double-colon has to stand for at least one hextet. */
+        if (CORK_UNLIKELY(hextets_seen == 8)) {
+            goto parse_error;
+        }
+
         /* We've seen a double-colon, so use 0000 for any hextets that weren't
          * present. */
 #if CORK_IP_ADDRESS_DEBUG
-- 
2.43.0


From 545ff93b5396465109a2f0993501fdc0efcf7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:32 +0000
Subject: [PATCH 25/65] fix: mask IPv6 addresses in host order when checking
 networks

The address was masked before its bytes were swapped, so on little-endian hosts
the wrong bits were tested: 2::a00:0:111/111 counted as a network.
---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 5c03ded..eaaf73d 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -461,8 +461,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From d71dcb1bfca222c5e3e8abc491ab513848685b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 26/65] fix: never round a timestamp's fraction up to a full
 second

The millisecond portion of a fraction of 0.9996 was 1000, and "%3f" formatted
it with four digits.
---
 include/libcork/core/timestamp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..0a3d95a 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,7 +83,8 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
-    return gsec;
+    /* The fraction of a second never rounds up to a full second. */
+    return (gsec < denom)? gsec: denom - 1;
 }
 
 CORK_INLINE
-- 
2.43.0


From 1d3c2b184570400a95f5d5d1325d536c169db31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 27/65] fix: reject fraction widths that wrap around

"%4294967297f" was taken for "%1f".
---
 src/libcork/core/timestamp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/timestamp.c b/src/libcork/core/timestamp.c
index dc059c6..6fa873e 100644
--- a/src/libcork/core/timestamp.c
+++ b/src/libcork/core/timestamp.c
@@ -75,8 +75,13 @@ cork_timestamp_format_parts(const cork_timestamp ts, struct tm *tm,
 
         /* Then parse the format specifier */
         while (is_digit(*spec)) {
-            width *= 10;
-            width += (*spec++ - '0');
+            /* Don't let the width of an overlong number wrap around; anything
+             * larger than 9 is invalid. */
+            if (CORK_LIKELY(width <= 9)) {
+                width *= 10;
+                width += (*spec - '0');
+            }
+            spec++;
         }
 
         switch (*spec) {
-- 
2.43.0


From a281e98128c81d98cd1d9d38d3be62f9263056f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 28/65] fix: an empty path list is an empty string, not NULL

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..60db176 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -315,7 +315,7 @@ cork_path_list_free(struct cork_path_list *list)
 const char *
 cork_path_list_to_string(const struct cork_path_list *list)
 {
-    return list->string.buf;
+    return (list->string.buf == NULL)? "": list->string.buf;
 }
 
 void
-- 
2.43.0


From b74425a6fa3324feb09bac304e956aa475c7d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 29/65] fix: don't double the slash of absolute paths in the
 root directory

With / as the current directory, the absolute form of "a" was "//a".
---
 src/libcork/posix/files.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 60db176..32fa230 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -159,7 +159,10 @@ cork_path_set_absolute(struct cork_path *path)
     ep_check_posix(getcwd(buf.buf, PATH_MAX));
     buf.size = strlen(buf.buf);
 #endif
-    cork_buffer_append(&buf, "/", 1);
+    /* The root directory already ends in a slash. */
+    if (cork_buffer_char(&buf, buf.size - 1) != '/') {
+        cork_buffer_append(&buf, "/", 1);
+    }
     cork_buffer_append_copy(&buf, &path->given);
     cork_buffer_done(&path->given);
     path->given = buf;
-- 
2.43.0


From 04884df9382d3ddf4540f62ad02f02177f844ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 30/65] fix: let a path be appended to itself

The content being appended was changed, and could be moved, by the append.
---
 src/libcork/posix/files.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 32fa230..bd2aaf1 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -222,7 +222,14 @@ cork_path_join(const struct cork_path *other, const char *more)
 void
 cork_path_append_path(struct cork_path *path, const struct cork_path *more)
 {
-    cork_path_append(path, more->given.buf);
+    if (path == more) {
+        /* Appending changes (and can move) the content that we append. */
+        struct cork_path  *copy = cork_path_clone(more);
+        cork_path_append(path, copy->given.buf);
+        cork_path_free(copy);
+    } else {
+        cork_path_append(path, more->given.buf);
+    }
 }
 
 struct cork_path *
-- 
2.43.0


From 477104f33440b527247d0711d0dce9f110d5a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 31/65] fix: don't follow symbolic links when removing files

---
 src/libcork/posix/files.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index bd2aaf1..3267e4c 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -650,17 +650,24 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
 int
 cork_file_remove(struct cork_file *file, unsigned int flags)
 {
+    struct stat  info;
+
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
 
-    if (file->type == CORK_FILE_MISSING) {
-        if (flags & CORK_FILE_PERMISSIVE) {
+    /* Don't follow symbolic links: we remove the link, never the file or
+     * directory (let alone the directory's contents) that it points to. */
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        if ((errno == ENOENT || errno == ENOTDIR) &&
+            (flags & CORK_FILE_PERMISSIVE)) {
             return 0;
-        } else {
+        } else if (errno == ENOTDIR) {
             cork_system_error_set_explicit(ENOENT);
             return -1;
+        } else {
+            cork_system_error_set();
+            return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    } else if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 2724c2253514e79e2c70711e6717764b8fba6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 32/65] fix: report an error when a file can't be unlinked

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 3267e4c..240dffc 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -678,7 +678,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         rii_check_posix(rmdir(cork_path_get(file->path)));
         return 0;
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
         return 0;
     }
 }
-- 
2.43.0


From 3b85712e998315597fd1e458d36c02015b49134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 33/65] fix: return the directory iterator's own result

---
 src/libcork/posix/files.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 240dffc..962e21b 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -527,6 +527,7 @@ cork_file_iterate_directory(struct cork_file *file,
                             cork_file_directory_iterator iterator,
                             void *user_data)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -550,7 +551,11 @@ cork_file_iterate_directory(struct cork_file *file,
         ei_check(cork_file_stat(&child_file));
 
         /* If the entry is a subdirectory, recurse into it. */
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        rc = iterator(&child_file, entry->d_name, user_data);
+        if (rc != 0) {
+            goto error;
+        }
+        rc = -1;
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -580,7 +585,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     rii_check_posix(closedir(dir));
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 72a82d94d8266ae0fed86a76445606cbc9592759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 34/65] fix: iterate through directory entries that can't be
 inspected

---
 src/libcork/posix/files.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 962e21b..21cfdd8 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -548,9 +548,9 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
-        ei_check(cork_file_stat(&child_file));
 
-        /* If the entry is a subdirectory, recurse into it. */
+        /* Don't stat the entry yet.  We might not be able to (if it's a symbolic
+         * link loop, for instance), but it's still part of the directory. */
         rc = iterator(&child_file, entry->d_name, user_data);
         if (rc != 0) {
             goto error;
-- 
2.43.0


From 18fa4465632ff7ee8e9068ed670429307b29f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 35/65] fix: recursive mkdir of paths with empty, . or ..
 components

---
 src/libcork/posix/files.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 21cfdd8..78b6e45 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -588,6 +588,18 @@ error:
     return rc;
 }
 
+/* Whether the last component of path is empty (because of a trailing slash), "."
+ * or "..", so that it names one of the directories in the rest of the path. */
+static bool
+cork_path_names_parent(const struct cork_path *path)
+{
+    const char  *str = cork_path_get(path);
+    const char  *last = strrchr(str, '/');
+    const char  *base = (last == NULL)? str: last + 1;
+    return strcmp(base, "") == 0 || strcmp(base, ".") == 0 ||
+        strcmp(base, "..") == 0;
+}
+
 static int
 cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
                     unsigned int flags)
@@ -633,6 +645,14 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
 
     /* Create the directory already! */
     DEBUG("  Creating %s\n", cork_path_get(file->path));
+    if ((flags & CORK_FILE_RECURSIVE) && cork_path_names_parent(file->path)) {
+        /* Creating the parent directories has already created this one. */
+        cork_file_reset(file);
+        rii_check(cork_file_stat(file));
+        if (file->type == CORK_FILE_DIRECTORY) {
+            return 0;
+        }
+    }
     rii_check_posix(mkdir(cork_path_get(file->path), mode));
     return 0;
 }
-- 
2.43.0


From b18a4c205f31a61556a90a4d1909c90a03adb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 36/65] fix: permissive mkdir when someone else creates the
 directory

---
 src/libcork/posix/files.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 78b6e45..82d7d6a 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -653,7 +653,23 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
             return 0;
         }
     }
-    rii_check_posix(mkdir(cork_path_get(file->path), mode));
+    while (mkdir(cork_path_get(file->path), mode) == -1) {
+        int  mkdir_errno = errno;
+        if (mkdir_errno == EINTR) {
+            continue;
+        }
+        if (mkdir_errno == EEXIST && (flags & CORK_FILE_PERMISSIVE)) {
+            /* Someone else might have created the directory since we checked
+             * that it's missing. */
+            cork_file_reset(file);
+            rii_check(cork_file_stat(file));
+            if (file->type == CORK_FILE_DIRECTORY) {
+                return 0;
+            }
+        }
+        cork_system_error_set_explicit(mkdir_errno);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 849bebb8f9e1698bb603e30a233728848a690267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 37/65] fix: forget a file's old type when creating or removing
 it

---
 src/libcork/posix/files.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 82d7d6a..f6cb6b5 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -677,7 +677,13 @@ int
 cork_file_mkdir(struct cork_file *file, cork_file_mode mode,
                 unsigned int flags)
 {
-    return cork_file_mkdir_one(file, mode, flags);
+    int  rc;
+    /* Don't trust what an earlier call found out about the file, and don't let
+     * later calls see that it didn't exist before. */
+    cork_file_reset(file);
+    rc = cork_file_mkdir_one(file, mode, flags);
+    cork_file_reset(file);
+    return rc;
 }
 
 static int
@@ -694,6 +700,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
     struct stat  info;
 
     DEBUG("rm %s\n", cork_path_get(file->path));
+    cork_file_reset(file);
 
     /* Don't follow symbolic links: we remove the link, never the file or
      * directory (let alone the directory's contents) that it points to. */
-- 
2.43.0


From b44bdf8775af4d33dfac1b8c069891ccb6c8df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 38/65] fix: walk the root directory, and don't read before an
 empty path

---
 src/libcork/posix/directory-walker.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..a5370dd 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -30,11 +30,15 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 {
     DIR  *dir = NULL;
     struct dirent  *entry;
+    size_t  old_size;
     size_t  dir_path_size;
 
     rip_check_posix(dir = opendir(path->buf));
 
-    cork_buffer_append(path, "/", 1);
+    old_size = path->size;
+    if (old_size > 0 && ((char *) path->buf)[old_size - 1] != '/') {
+        cork_buffer_append(path, "/", 1);
+    }
     dir_path_size = path->size;
     errno = 0;
     while ((entry = readdir(dir)) != NULL) {
@@ -89,7 +93,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     }
 
     /* Remove the trailing '/' from the path buffer. */
-    cork_buffer_truncate(path, dir_path_size - 1);
+    cork_buffer_truncate(path, old_size);
     rii_check_posix(closedir(dir));
     return 0;
 
@@ -105,17 +109,22 @@ cork_walk_directory(const char *path, struct cork_dir_walker *w)
 {
     int  rc;
     char  *p;
+    size_t  root_path_size;
     struct cork_buffer  buf = CORK_BUFFER_INIT();
 
     /* Seed the buffer with the directory's path, ensuring that there's no
-     * trailing '/' */
+     * trailing '/' (unless it's the root directory) */
     cork_buffer_append_string(&buf, path);
     p = buf.buf;
-    while (p[buf.size-1] == '/') {
+    while (buf.size > 1 && p[buf.size-1] == '/') {
         buf.size--;
         p[buf.size] = '\0';
     }
-    rc = cork_walk_one_directory(w, &buf, buf.size + 1);
+    root_path_size = buf.size;
+    if (buf.size > 0 && p[buf.size-1] != '/') {
+        root_path_size++;
+    }
+    rc = cork_walk_one_directory(w, &buf, root_path_size);
     cork_buffer_done(&buf);
     return rc;
 }
-- 
2.43.0


From 58d6ecce128cc4a34a043f8f9371eda41fc1a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:02 +0000
Subject: [PATCH 39/65] fix: abort directory walks with the callback's own
 result

---
 src/libcork/posix/directory-walker.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index a5370dd..19c30ff 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -28,6 +28,7 @@ static int
 cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
                         size_t root_path_size)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  old_size;
@@ -56,20 +57,22 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
             if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
+                ei_check(rc);
+                ei_check(rc = cork_walk_one_directory(w, path, root_path_size));
+                ei_check(rc = cork_dir_walker_leave_directory
                          (w, path->buf, path->buf + root_path_size,
                           path->buf + dir_path_size));
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
+            ei_check(rc = cork_dir_walker_file
                      (w, path->buf, path->buf + root_path_size,
                       path->buf + dir_path_size));
         }
+        rc = -1;
 
         /* Remove this entry name from the path buffer. */
         cork_buffer_truncate(path, dir_path_size);
@@ -101,7 +104,7 @@ error:
     if (dir != NULL) {
         rii_check_posix(closedir(dir));
     }
-    return -1;
+    return rc;
 }
 
 int
-- 
2.43.0


From b4f2bc6a03e41db6646aca7fd58a3d7e57045763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:35 +0000
Subject: [PATCH 40/65] fix: don't fail directory walks because of dangling
 symbolic links

---
 src/libcork/posix/directory-walker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 19c30ff..3e7b495 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -53,6 +53,13 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
+        if (stat(path->buf, &info) == -1 && errno == ENOENT) {
+            /* A dangling symbolic link (or a file that someone else has removed
+             * in the meantime) is neither a file nor a subdirectory. */
+            cork_buffer_truncate(path, dir_path_size);
+            errno = 0;
+            continue;
+        }
         ei_check_posix(stat(path->buf, &info));
 
         /* If the entry is a subdirectory, recurse into it. */
-- 
2.43.0


From 63aec56de74562ef01a26d48307a4573b2d956e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 41/65] fix: cloning a cleared environment

---
 src/libcork/posix/env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index e535997..5ea57bb 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -100,7 +100,8 @@ cork_env_clone_current(void)
     char  **curr;
     struct cork_env  *env = cork_env_new();
 
-    for (curr = environ; *curr != NULL; curr++) {
+    /* clearenv can leave us without any array at all. */
+    for (curr = environ; curr != NULL && *curr != NULL; curr++) {
         const char  *entry = *curr;
         const char  *equal;
 
-- 
2.43.0


From a4b83dc1472595de0d983988215cda0f0e13bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 42/65] fix: a failed exec leaves its parameters as they were

---
 src/libcork/posix/exec.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 11d08f1..49bb17e 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -14,23 +14,7 @@
 #include "libcork/ds.h"
 #include "libcork/os/subprocess.h"
 #include "libcork/helpers/errors.h"
-
-#define ri_check_posix(call) \
-    do { \
-        while (true) { \
-            if ((call) == -1) { \
-                if (errno == EINTR) { \
-                    continue; \
-                } else { \
-                    cork_system_error_set(); \
-                    CORK_PRINT_ERROR(); \
-                    return -1; \
-                } \
-            } else { \
-                break; \
-            } \
-        } \
-    } while (0)
+#include "libcork/helpers/posix.h"
 
 
 struct cork_exec {
@@ -178,12 +162,17 @@ cork_exec_run(struct cork_exec *exec)
 
     /* Change the working directory, if requested */
     if (exec->cwd != NULL) {
-        ri_check_posix(chdir(exec->cwd));
+        ei_check_posix(chdir(exec->cwd));
     }
 
     /* Execute the new program */
-    ri_check_posix(execvp(exec->program, (char * const *) params));
+    ei_check_posix(execvp(exec->program, (char * const *) params));
 
     /* This is unreachable */
     return 0;
+
+error:
+    /* Remove the NULL again, so that it's not taken for a parameter. */
+    cork_array_remove(&exec->params, cork_array_size(&exec->params) - 1);
+    return -1;
 }
-- 
2.43.0


From 6bbf633d091a8f15f5596f5156681a78adb02c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:25 +0000
Subject: [PATCH 43/65] fix: make the pipes from subprocesses really
 non-blocking

---
 src/libcork/posix/subprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b1d23a5..6d7de01 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -134,9 +134,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
-        ei_check_posix(flags = fcntl(p->fds[0], F_GETFD));
+        ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
-        ei_check_posix(fcntl(p->fds[0], F_SETFD, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
     }
 
     p->first = true;
-- 
2.43.0


From 92f0431071c3cec61fab9f8a6769eff2fb46b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 44/65] fix: draining a subprocess returned an uninitialised
 value

---
 src/libcork/posix/subprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6d7de01..f2ad87c 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -549,7 +549,7 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
-    bool  progress;
+    bool  progress = false;
     cork_subprocess_drain_(self, &progress);
     return progress;
 }
-- 
2.43.0


From cd0a55f54915021b9bc3227195fe378315efa260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 45/65] fix: write all of the data to a subprocess's stdin

---
 src/libcork/posix/subprocess.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index f2ad87c..e013fe6 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -243,7 +243,13 @@ cork_write_pipe__data(struct cork_stream_consumer *consumer,
 {
     struct cork_write_pipe  *p =
         cork_container_of(consumer, struct cork_write_pipe, consumer);
-    rii_check_posix(write(p->fds[1], buf, size));
+    const char  *src = buf;
+    while (size > 0) {
+        ssize_t  bytes_written;
+        rii_check_posix(bytes_written = write(p->fds[1], src, size));
+        src += bytes_written;
+        size -= bytes_written;
+    }
     return 0;
 }
 
-- 
2.43.0


From 5efe2af4c00e5e28aa90e5ba0ba171e192588024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 46/65] fix: subprocesses kept second copies of their standard
 streams open

---
 src/libcork/posix/subprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index e013fe6..2a3763d 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -150,8 +150,9 @@ error:
 static int
 cork_read_pipe_dup(struct cork_read_pipe *p, int fd)
 {
-    if (p->fds[1] != -1) {
+    if (p->fds[1] != -1 && p->fds[1] != fd) {
         rii_check_posix(dup2(p->fds[1], fd));
+        return cork_read_pipe_close_write(p);
     }
     return 0;
 }
@@ -301,8 +302,9 @@ cork_write_pipe_open(struct cork_write_pipe *p)
 static int
 cork_write_pipe_dup(struct cork_write_pipe *p, int fd)
 {
-    if (p->fds[0] != -1) {
+    if (p->fds[0] != -1 && p->fds[0] != fd) {
         rii_check_posix(dup2(p->fds[0], fd));
+        return cork_write_pipe_close_read(p);
     }
     return 0;
 }
-- 
2.43.0


From 272a3157f2538628cedecd8316e6d6f4eb45d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 47/65] fix: don't report killed subprocesses as successful

---
 src/libcork/posix/subprocess.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 2a3763d..c47a113 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -475,7 +475,13 @@ cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
         *progress = true;
         self->pid = 0;
         if (self->exit_code != NULL) {
-            *self->exit_code = WEXITSTATUS(status);
+            if (WIFSIGNALED(status)) {
+                /* Use the shell's convention, so that a subprocess that was
+                 * killed is never taken for a successful one. */
+                *self->exit_code = 128 + WTERMSIG(status);
+            } else {
+                *self->exit_code = WEXITSTATUS(status);
+            }
         }
     }
     return 0;
-- 
2.43.0


From a7d2708390970a25a9b421aa227b710ecbe125f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:54 +0000
Subject: [PATCH 48/65] fix: terminate subprocesses when reading from them
 fails

---
 src/libcork/posix/subprocess.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index c47a113..d1e1bf3 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -549,7 +549,7 @@ cork_subprocess_yield(unsigned int *spin_count)
 }
 
 static int
-cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
+cork_subprocess_try_drain(struct cork_subprocess *self, bool *progress)
 {
     rii_check(cork_read_pipe_read(&self->stdout_pipe, self->buf, progress));
     rii_check(cork_read_pipe_read(&self->stderr_pipe, self->buf, progress));
@@ -560,6 +560,17 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
     }
 }
 
+static int
+cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
+{
+    if (CORK_UNLIKELY(cork_subprocess_try_drain(self, progress) != 0)) {
+        cork_subprocess_abort(self);
+        *progress = false;
+        return -1;
+    }
+    return 0;
+}
+
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
@@ -646,9 +657,14 @@ cork_subprocess_group_drain_(struct cork_subprocess_group *group,
     size_t  i;
     for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
         struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
-        rii_check(cork_subprocess_drain_(sub, progress));
+        ei_check(cork_subprocess_drain_(sub, progress));
     }
     return 0;
+
+error:
+    cork_subprocess_group_terminate(group);
+    *progress = false;
+    return -1;
 }
 
 bool
-- 
2.43.0


From ab6e5434d4f30d88d950f7ef5299d7975f481154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 49/65] fix: close a subprocess's pipes when it can't be forked

---
 src/libcork/posix/subprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index d1e1bf3..4af13fc 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -453,6 +453,9 @@ cork_subprocess_start(struct cork_subprocess *self)
     } else if (pid < 0) {
         /* Error forking */
         cork_system_error_set();
+        cork_write_pipe_close(&self->stdin_pipe);
+        cork_read_pipe_close(&self->stdout_pipe);
+        cork_read_pipe_close(&self->stderr_pipe);
         return -1;
     } else {
         /* Parent process */
-- 
2.43.0


From 75ee41483ce963725a92a53f1e4638b3cafdcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 50/65] fix: a subprocess's exit code is its function's result

---
 src/libcork/posix/subprocess.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 4af13fc..343a41b 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -447,8 +447,13 @@ cork_subprocess_start(struct cork_subprocess *self)
         if (CORK_LIKELY(rc == 0)) {
             _exit(EXIT_SUCCESS);
         } else {
-            fprintf(stderr, "%s\n", cork_error_message());
-            _exit(EXIT_FAILURE);
+            if (cork_error_occurred()) {
+                fprintf(stderr, "%s\n", cork_error_message());
+            }
+            /* The exit code is the function's result, of which only the lowest
+             * 8 bits reach the parent; don't let a failure look like a
+             * success. */
+            _exit(((rc & 0xff) == 0)? EXIT_FAILURE: rc);
         }
     } else if (pid < 0) {
         /* Error forking */
-- 
2.43.0


From 18a12181e11431b1a124e1f1d3da149153dff4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:38 +0000
Subject: [PATCH 51/65] fix: executed subprocesses don't inherit the pipes of
 others

---
 src/libcork/posix/subprocess.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 343a41b..d1077eb 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -74,6 +74,15 @@ cork_subprocess_group_add(struct cork_subprocess_group *group,
  * Pipes (parent reads)
  */
 
+static int
+cork_pipe_set_cloexec(int fd)
+{
+    int  flags;
+    rii_check_posix(flags = fcntl(fd, F_GETFD));
+    rii_check_posix(fcntl(fd, F_SETFD, flags | FD_CLOEXEC));
+    return 0;
+}
+
 struct cork_read_pipe {
     struct cork_stream_consumer  *consumer;
     int  fds[2];
@@ -137,6 +146,7 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
         ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
+        ei_check(cork_pipe_set_cloexec(p->fds[0]));
     }
 
     p->first = true;
@@ -296,7 +306,14 @@ cork_write_pipe_open(struct cork_write_pipe *p)
     DEBUG("[write] Opening writer pipe\n");
     rii_check_posix(pipe(p->fds));
     DEBUG("[write]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
+    /* Other subprocesses mustn't inherit our end of the pipe; otherwise this
+     * subprocess won't see the end of the stream until they've finished too. */
+    ei_check(cork_pipe_set_cloexec(p->fds[1]));
     return 0;
+
+error:
+    cork_write_pipe_close(p);
+    return -1;
 }
 
 static int
-- 
2.43.0


From 11742e9d4a257846c7050e560331db870bce20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:19 +0000
Subject: [PATCH 52/65] fix: terminate all of a group's subprocesses even if
 one fails

---
 src/libcork/posix/subprocess.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index d1077eb..a7de44c 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -628,11 +628,15 @@ static int
 cork_subprocess_group_terminate(struct cork_subprocess_group *group)
 {
     size_t  i;
+    int  rc = 0;
     for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
         struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
-        rii_check(cork_subprocess_abort(sub));
+        /* Terminate the others even if there's a problem with this one. */
+        if (cork_subprocess_abort(sub) == -1) {
+            rc = -1;
+        }
     }
-    return 0;
+    return rc;
 }
 
 int
-- 
2.43.0


From b2b64b1be631fd203ecf0d06b0826437323690ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:34 +0000
Subject: [PATCH 53/65] fix: set an error when slicing a missing slice

---
 src/libcork/ds/slice.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index ee14ca4..6813f1e 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From 151ba9d8164201d3444a998c670959f046a7cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:43 +0000
Subject: [PATCH 54/65] fix: the debugging allocator must fail if its header
 doesn't fit

---
 src/libcork/core/allocator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index dc202bd..d792e04 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -393,7 +393,11 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
     if (CORK_UNLIKELY(base == NULL)) {
         return NULL;
     }
-- 
2.43.0


From 375c7c8791040d1154956c5b59c8482ac3e993b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 55/65] fix: a file removed while its directory is walked does
 not fail the walk

---
 src/libcork/posix/directory-walker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 3e7b495..75157e6 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -53,14 +53,15 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
-        if (stat(path->buf, &info) == -1 && errno == ENOENT) {
+        rc = stat(path->buf, &info);
+        if (rc == -1 && errno == ENOENT) {
             /* A dangling symbolic link (or a file that someone else has removed
              * in the meantime) is neither a file nor a subdirectory. */
             cork_buffer_truncate(path, dir_path_size);
             errno = 0;
             continue;
         }
-        ei_check_posix(stat(path->buf, &info));
+        ei_check_posix(rc);
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-- 
2.43.0


From 44d35c1913bcc0873ae00b5f0ebdcb5ea999214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 56/65] fix: let the buffer copy functions link when they
 aren't inlined

---
 include/libcork/ds/buffer.h | 17 +++++------------
 src/libcork/ds/buffer.c     | 13 +++++++++++++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/libcork/ds/buffer.h b/include/libcork/ds/buffer.h
index e406149..d8fecd8 100644
--- a/include/libcork/ds/buffer.h
+++ b/include/libcork/ds/buffer.h
@@ -109,12 +109,8 @@ cork_buffer_set(struct cork_buffer* buffer, const void* src, size_t length)
     buffer->size = length;
 }
 
-CORK_INLINE
-void
-cork_buffer_copy(struct cork_buffer* dest, const struct cork_buffer* src)
-{
-    cork_buffer_set(dest, src->buf, src->size);
-}
+CORK_API void
+cork_buffer_copy(struct cork_buffer* dest, const struct cork_buffer* src);
 
 CORK_INLINE
 void
@@ -126,12 +122,9 @@ cork_buffer_append(struct cork_buffer* buffer, const void* src, size_t length)
     ((char*) buffer->buf)[buffer->size] = '\0';
 }
 
-CORK_INLINE
-void
-cork_buffer_append_copy(struct cork_buffer* dest, const struct cork_buffer* src)
-{
-    cork_buffer_append(dest, src->buf, src->size);
-}
+CORK_API void
+cork_buffer_append_copy(struct cork_buffer* dest,
+                        const struct cork_buffer* src);
 
 
 CORK_INLINE
diff --git a/src/libcork/ds/buffer.c b/src/libcork/ds/buffer.c
index 64f8300..52d9618 100644
--- a/src/libcork/ds/buffer.c
+++ b/src/libcork/ds/buffer.c
@@ -106,6 +106,19 @@ void
 cork_buffer_append_string(struct cork_buffer* buffer, const char* str);
 
 
+void
+cork_buffer_copy(struct cork_buffer* dest, const struct cork_buffer* src)
+{
+    cork_buffer_set(dest, src->buf, src->size);
+}
+
+void
+cork_buffer_append_copy(struct cork_buffer* dest, const struct cork_buffer* src)
+{
+    cork_buffer_append(dest, src->buf, src->size);
+}
+
+
 void
 cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
                            va_list args)
-- 
2.43.0


From 3b78ea5b35a943901088a601091ab48679c6ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:01 +0000
Subject: [PATCH 57/65] fix: let the hash helpers link when they aren't inlined

---
 src/libcork/core/hash.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libcork/core/hash.c b/src/libcork/core/hash.c
index 8220d41..aa077d7 100644
--- a/src/libcork/core/hash.c
+++ b/src/libcork/core/hash.c
@@ -10,6 +10,18 @@
 #include "libcork/core/hash.h"
 #include "libcork/core/types.h"
 
+uint32_t
+cork_getblock32(const uint32_t *p, int i);
+
+uint64_t
+cork_getblock64(const uint64_t *p, int i);
+
+uint32_t
+cork_fmix32(uint32_t h);
+
+uint64_t
+cork_fmix64(uint64_t k);
+
 bool
 cork_big_hash_equal(const cork_big_hash h1, const cork_big_hash h2);
 
-- 
2.43.0


From 17c3c657b7a261e616236aa64acfeb6ac9524aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:09 +0000
Subject: [PATCH 58/65] fix: default calloc must fail if its size overflows,
 also without assertions

---
 src/libcork/core/allocator.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index d792e04..6e1efaf 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(size == 0 || count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From cdbb30844883277eb7ee5aa09956371f8cb2dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 59/65] fix: the 32-bit big hash must not shift a byte into the
 sign bit

---
 include/libcork/core/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcork/core/hash.h b/include/libcork/core/hash.h
index 560d197..5e0a460 100644
--- a/include/libcork/core/hash.h
+++ b/include/libcork/core/hash.h
@@ -223,19 +223,19 @@ do { \
         case 13: k4 ^= tail[12] << 0; \
                  k4 *= c4; k4 = CORK_ROTL32(k4,18); k4 *= c1; h4 ^= k4; \
         \
-        case 12: k3 ^= tail[11] << 24; \
+        case 12: k3 ^= (uint32_t) tail[11] << 24; \
         case 11: k3 ^= tail[10] << 16; \
         case 10: k3 ^= tail[ 9] << 8; \
         case  9: k3 ^= tail[ 8] << 0; \
                  k3 *= c3; k3 = CORK_ROTL32(k3,17); k3 *= c4; h3 ^= k3; \
         \
-        case  8: k2 ^= tail[ 7] << 24; \
+        case  8: k2 ^= (uint32_t) tail[ 7] << 24; \
         case  7: k2 ^= tail[ 6] << 16; \
         case  6: k2 ^= tail[ 5] << 8; \
         case  5: k2 ^= tail[ 4] << 0; \
                  k2 *= c2; k2 = CORK_ROTL32(k2,16); k2 *= c3; h2 ^= k2; \
         \
-        case  4: k1 ^= tail[ 3] << 24; \
+        case  4: k1 ^= (uint32_t) tail[ 3] << 24; \
         case  3: k1 ^= tail[ 2] << 16; \
         case  2: k1 ^= tail[ 1] << 8; \
         case  1: k1 ^= tail[ 0] << 0; \
-- 
2.43.0


From 9ea3b9af98acc4c57296058d5f9e32c002f4e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:02 +0000
Subject: [PATCH 60/65] fix: list macros must work with arguments that are read
 from the list

---
 include/libcork/ds/dllist.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/libcork/ds/dllist.h b/include/libcork/ds/dllist.h
index 273fcfd..bc1c9ad 100644
--- a/include/libcork/ds/dllist.h
+++ b/include/libcork/ds/dllist.h
@@ -71,20 +71,27 @@ CORK_API size_t
 cork_dllist_size(const struct cork_dllist *list);
 
 
+/* The arguments of these macros might be read from the list that we're about to
+ * change, as in cork_dllist_remove(cork_dllist_start(list)). */
+
 #define cork_dllist_add_after(pred, element) \
     do { \
-        (element)->prev = (pred); \
-        (element)->next = (pred)->next; \
-        (pred)->next->prev = (element); \
-        (pred)->next = (element); \
+        struct cork_dllist_item  *__cork_pred = (pred); \
+        struct cork_dllist_item  *__cork_added = (element); \
+        __cork_added->prev = __cork_pred; \
+        __cork_added->next = __cork_pred->next; \
+        __cork_pred->next->prev = __cork_added; \
+        __cork_pred->next = __cork_added; \
     } while (0)
 
 #define cork_dllist_add_before(succ, element) \
     do { \
-        (element)->next = (succ); \
-        (element)->prev = (succ)->prev; \
-        (succ)->prev->next = (element); \
-        (succ)->prev = (element); \
+        struct cork_dllist_item  *__cork_succ = (succ); \
+        struct cork_dllist_item  *__cork_added = (element); \
+        __cork_added->next = __cork_succ; \
+        __cork_added->prev = __cork_succ->prev; \
+        __cork_succ->prev->next = __cork_added; \
+        __cork_succ->prev = __cork_added; \
     } while (0)
 
 #define cork_dllist_add_to_head(list, element) \
@@ -123,8 +130,9 @@ cork_dllist_size(const struct cork_dllist *list);
 
 #define cork_dllist_remove(element) \
     do { \
-        (element)->prev->next = (element)->next; \
-        (element)->next->prev = (element)->prev; \
+        struct cork_dllist_item  *__cork_removed = (element); \
+        __cork_removed->prev->next = __cork_removed->next; \
+        __cork_removed->next->prev = __cork_removed->prev; \
     } while (0)
 
 
-- 
2.43.0


From 804c3ce357b337152678bd7ea5db370b6f36c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:34 +0000
Subject: [PATCH 61/65] fix: append an element that is read from the array
 itself

---
 include/libcork/ds/array.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcork/ds/array.h b/include/libcork/ds/array.h
index e8df4d5..e4a8f14 100644
--- a/include/libcork/ds/array.h
+++ b/include/libcork/ds/array.h
@@ -133,9 +133,21 @@ cork_raw_array_copy(struct cork_raw_array *dest,
 #define cork_array_ensure_size(arr, count) \
     (cork_raw_array_ensure_size(cork_array_to_raw(arr), (count)))
 
+#if CORK_CONFIG_HAVE_GCC_STATEMENT_EXPRS
+/* The new element might be read from the array itself, so we have to get hold of
+ * it before the array changes. */
+#define cork_array_append(arr, element) \
+    (__extension__ ({ \
+        __typeof__((arr)->items[0])  __cork_element = (element); \
+        cork_raw_array_append(cork_array_to_raw(arr)); \
+        (arr)->items[(arr)->size - 1] = __cork_element; \
+        (void) 0; \
+    }))
+#else
 #define cork_array_append(arr, element) \
     (cork_raw_array_append(cork_array_to_raw(arr)), \
      ((arr)->items[(arr)->size - 1] = (element), (void) 0))
+#endif
 
 #define cork_array_append_get(arr) \
     (cork_raw_array_append(cork_array_to_raw(arr)), \
-- 
2.43.0


From cc69289dd4622840bd55ebda3cf430666b07bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:35 +0000
Subject: [PATCH 62/65] fix: the directory of a specification can be set to its
 own string

---
 src/libcork/posix/exec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 49bb17e..7ee73c3 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -140,10 +140,12 @@ cork_exec_cwd(struct cork_exec *exec)
 void
 cork_exec_set_cwd(struct cork_exec *exec, const char *directory)
 {
-    if (exec->cwd != NULL) {
-        cork_strfree(exec->cwd);
-    }
+    /* directory might be the string that we're about to free. */
+    const char  *old_cwd = exec->cwd;
     exec->cwd = cork_strdup(directory);
+    if (old_cwd != NULL) {
+        cork_strfree(old_cwd);
+    }
 }
 
 int
-- 
2.43.0


From 73c8a0d772e351670ff1722db4fd253cb9ab73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:04 +0000
Subject: [PATCH 63/65] fix: an application's own cork_current_allocator also
 governs the inline functions that are not inlined

---
 include/libcork/core/allocator.h | 35 +++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 9d70ea0..e5d8468 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -252,15 +252,22 @@ cork_set_allocator(const struct cork_alloc *alloc);
 
 /* The current allocator of whichever library is being compiled. */
 
+/* The copies of the following functions that you can link against use libcork's
+ * allocator, so a library with an allocator of its own needs its own copies, even
+ * of those that the compiler decides not to inline. */
+
 #if !defined(cork_current_allocator)
 #define cork_current_allocator()  (cork_allocator)
+#define CORK_CURRENT_ALLOCATOR_INLINE  CORK_INLINE
+#else
+#define CORK_CURRENT_ALLOCATOR_INLINE  CORK_ATTR_UNUSED static
 #endif
 
 
 /* using an allocator */
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_calloc(size_t count, size_t size)
 {
@@ -269,7 +276,7 @@ cork_calloc(size_t count, size_t size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_malloc(size_t size)
 {
@@ -278,7 +285,7 @@ cork_malloc(size_t size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_realloc(void *ptr, size_t old_size, size_t new_size)
 {
@@ -287,7 +294,7 @@ cork_realloc(void *ptr, size_t old_size, size_t new_size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_xcalloc(size_t count, size_t size)
 {
@@ -296,7 +303,7 @@ cork_xcalloc(size_t count, size_t size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_xmalloc(size_t size)
 {
@@ -305,7 +312,7 @@ cork_xmalloc(size_t size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_xrealloc(void *ptr, size_t old_size, size_t new_size)
 {
@@ -314,7 +321,7 @@ cork_xrealloc(void *ptr, size_t old_size, size_t new_size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void *
 cork_xreallocf(void *ptr, size_t old_size, size_t new_size)
 {
@@ -322,7 +329,7 @@ cork_xreallocf(void *ptr, size_t old_size, size_t new_size)
     return cork_alloc_xreallocf(alloc, ptr, old_size, new_size);
 }
 
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void
 cork_free(void *ptr, size_t size)
 {
@@ -330,7 +337,7 @@ cork_free(void *ptr, size_t size)
     cork_alloc_free(alloc, ptr, size);
 }
 
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void
 cork_cfree(void *ptr, size_t count, size_t size)
 {
@@ -346,7 +353,7 @@ cork_cfree(void *ptr, size_t count, size_t size)
 /* string-related helper functions */
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 const char *
 cork_strdup(const char *str)
 {
@@ -355,7 +362,7 @@ cork_strdup(const char *str)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 const char *
 cork_strndup(const char *str, size_t size)
 {
@@ -364,7 +371,7 @@ cork_strndup(const char *str, size_t size)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 const char *
 cork_xstrdup(const char *str)
 {
@@ -373,7 +380,7 @@ cork_xstrdup(const char *str)
 }
 
 CORK_ATTR_MALLOC
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 const char *
 cork_xstrndup(const char *str, size_t size)
 {
@@ -381,7 +388,7 @@ cork_xstrndup(const char *str, size_t size)
     return cork_alloc_xstrndup(alloc, str, size);
 }
 
-CORK_INLINE
+CORK_CURRENT_ALLOCATOR_INLINE
 void
 cork_strfree(const char *str)
 {
-- 
2.43.0


From c6a71f10e4a6279e543988ee8fe282e462fbd172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:32 +0000
Subject: [PATCH 64/65] fix: the arguments of CORK_MAKE_VERSION can be
 expressions

---
 include/libcork/core/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcork/core/api.h b/include/libcork/core/api.h
index 58956e6..f51ac37 100644
--- a/include/libcork/core/api.h
+++ b/include/libcork/core/api.h
@@ -37,7 +37,7 @@
 #define CORK_VERSION_PATCH  CORK_CONFIG_VERSION_PATCH
 
 #define CORK_MAKE_VERSION(major, minor, patch) \
-    ((major * 1000000) + (minor * 1000) + patch)
+    (((major) * 1000000) + ((minor) * 1000) + (patch))
 
 #define CORK_VERSION  \
     CORK_MAKE_VERSION(CORK_VERSION_MAJOR, \
-- 
2.43.0


From eff6fffca6d0b2ef3b014c34d7012e14184dff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:57 +0000
Subject: [PATCH 65/65] fix: the statement of a cork_once can use variables
 named prior_state and result

---
 include/libcork/threads/basics.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/libcork/threads/basics.h b/include/libcork/threads/basics.h
index 4eefa73..b0ff992 100644
--- a/include/libcork/threads/basics.h
+++ b/include/libcork/threads/basics.h
@@ -99,13 +99,14 @@ cork_thread_join(struct cork_thread *thread);
             /* already initialized */ \
         } else { \
             /* Try to claim the ability to perform the initialization */ \
-            int  prior_state = cork_int_cas(&name##__once.barrier, 0, 1); \
-            if (CORK_LIKELY(prior_state == 0)) { \
-                CORK_ATTR_UNUSED int  result; \
+            int  __cork_prior_state = \
+                cork_int_cas(&name##__once.barrier, 0, 1); \
+            if (CORK_LIKELY(__cork_prior_state == 0)) { \
+                CORK_ATTR_UNUSED int  __cork_result; \
                 /* we get to initialize */ \
                 call; \
-                result = cork_int_cas(&name##__once.barrier, 1, 2); \
-                assert(result == 1); \
+                __cork_result = cork_int_cas(&name##__once.barrier, 1, 2); \
+                assert(__cork_result == 1); \
             } else { \
                 /* someone else is initializing, spin/wait until done */ \
                 while (cork_once_load(&name##__once.barrier) != 2) { \
@@ -121,15 +122,16 @@ cork_thread_join(struct cork_thread *thread);
             /* already initialized */ \
         } else { \
             /* Try to claim the ability to perform the initialization */ \
-            int  prior_state = cork_int_cas(&name##__once.barrier, 0, 1); \
-            if (CORK_LIKELY(prior_state == 0)) { \
-                CORK_ATTR_UNUSED int  result; \
+            int  __cork_prior_state = \
+                cork_int_cas(&name##__once.barrier, 0, 1); \
+            if (CORK_LIKELY(__cork_prior_state == 0)) { \
+                CORK_ATTR_UNUSED int  __cork_result; \
                 /* we get to initialize */ \
                 cork_once_store(&name##__once.initializing_thread, \
                                 cork_current_thread_get_id()); \
                 call; \
-                result = cork_int_cas(&name##__once.barrier, 1, 2); \
-                assert(result == 1); \
+                __cork_result = cork_int_cas(&name##__once.barrier, 1, 2); \
+                assert(__cork_result == 1); \
             } else { \
                 /* someone else is initializing, is it us? */ \
                 if (cork_once_load(&name##__once.initializing_thread) == \
-- 
2.43.0

