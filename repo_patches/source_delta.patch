From 329ed248bcf5bc4b3ec5e8892c22f4c4af807702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/27] fix: circular buffer size reports the stored elements
 when full instead of the storage size

---
 gel/collections/circular_buffer.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..f1cd42e 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,16 +108,15 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
-
-    int tail = cbuf->tail;
-    int head = cbuf->head;
-    if (!is_circular_buf_full(cbuf)) {
-        if (head >= tail) {
-            size = (head - tail);
-        } else {
-            size = (cbuf->bufsize + head - tail);
-        }
+    size_t size;
+
+    // A single reading of both indexes: the other side may move its own at any time
+    size_t tail = cbuf->tail;
+    size_t head = cbuf->head;
+    if (head >= tail) {
+        size = (head - tail);
+    } else {
+        size = (cbuf->bufsize + head - tail);
     }
 
     return size;
-- 
2.43.0


From b533e93320e8f16299e1118162a3b8d227e9edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 02/27] fix: bulk write of exactly the gap up to the read index
 no longer empties the circular buffer

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index f1cd42e..3770803 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -165,7 +165,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len > tail - head - 1 ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From 71eb9d9d9bb8f391314d6772d30da58a4034f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/27] fix: bulk write no longer spins forever when the
 consumer frees space while it runs

---
 gel/collections/circular_buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 3770803..0c8a78d 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -156,9 +156,11 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+
+        // The consumer may have freed some space since the last iteration
+        tail = cbuf->tail;
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From 6db1856ef7630fd875d4b0c29c2f1a44479ae40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 04/27] fix: wear leveling finds the last write when it is in
 the last block of the page

---
 gel/wearleveling/wearleveling.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..a7d3889 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -116,11 +116,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
-    // Return the index of the last active marker
+    // Return the index of the last active marker (the last block, if all of the markers are consequent)
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From 9d63fb8ec5088ed14bb4e6eb0e60ad44e7982b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 05/27] fix: a failed wear leveled write leaves the previous
 block active

---
 gel/wearleveling/wearleveling.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index a7d3889..284d780 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,16 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(block, marker, buffer, len))) {
+            // The previous block is still the active one
+            return res;
+        }
+
+        wlm->last_marker       = marker;
+        wlm->last_active_block = block;
     }
     return 0;
 }
-- 
2.43.0


From 377f0475d879b64d7ece06104b124872aef27237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 06/27] fix: wear leveling init reports marker read errors
 instead of using them as a block index

---
 gel/wearleveling/wearleveling.c | 21 ++++++++++++++-------
 gel/wearleveling/wearleveling.h |  4 ++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 284d780..a5c4535 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -21,7 +21,7 @@
 #define NEXT_BLOCK(x, mod) ((x + 1) % mod)
 
 
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker);
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker);
 
 
 /**
@@ -77,16 +77,20 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
  * @param write_block Function to write a specific block of memory (and marker)
  * @param read_marker Function to read the marker of a block
  * @param blocks_in_page Number of blocks in page
+ * @return int 0 if everything was ok, something else otherwise (the active block is not known, init should be repeated)
  */
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page) {
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page) {
     assert(blocks_in_page < MAX_BLOCKS_IN_PAGE);
     wlm->read_block     = read_block;
     wlm->write_block    = write_block;
     wlm->read_marker    = read_marker;
     wlm->blocks_in_page = blocks_in_page;
 
-    wlm->last_active_block = search_last(wlm, &wlm->last_marker);
+    wlm->last_active_block = 0;
+    wlm->last_marker       = 0;
+
+    return search_last(wlm, &wlm->last_active_block, &wlm->last_marker);
 }
 
 
@@ -94,9 +98,11 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
+ * @param last_block Index of the last used block
+ * @param last_marker Marker of the last used block
  * @return int 0 if everything was ok, something else otherwise
  */
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker) {
     uint8_t marker;
     int     err;
 
@@ -122,6 +128,7 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    // Return the index of the last active marker (the last block, if all of the markers are consequent)
-    return i - 1;
+    // Index of the last active marker (the last block, if all of the markers are consequent)
+    *last_block = i - 1;
+    return 0;
 }
\ No newline at end of file
diff --git a/gel/wearleveling/wearleveling.h b/gel/wearleveling/wearleveling.h
index ac2a353..796c3db 100755
--- a/gel/wearleveling/wearleveling.h
+++ b/gel/wearleveling/wearleveling.h
@@ -29,8 +29,8 @@ int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
 int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page);
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page);
 
 
 #endif
-- 
2.43.0


From 1a2162929d5496123eded0d499a422186a4d0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 07/27] fix: event log window computation does not overflow on
 a huge number of requested events

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From d98040ee32716f4b87b09e73548285fb48b862e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 08/27] fix: event log reports a failed or short load of the
 first of two segments instead of misplacing the second

---
 gel/circular_event_log/circular_event_log.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..b853a06 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -44,12 +44,16 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
     if (start + actual_number > logger.max_events) {
         size_t to_read = logger.max_events - start;
         int    res     = logger.load_events(&events[0], to_read, start);
-        if (res <= 0) {
+        if (res <= 0 || (size_t)res < to_read) {
             return res;
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From cc7a31640f3ef6bf78fa2e87ffb8a5a0ee87fa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 09/27] fix: queue count stays right after the 16 bit running
 indexes wrap

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 842c1944d8b50a341a4118f9f48f6a1d231e327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 10/27] fix: stack peek shows the last pushed element instead
 of the slot above it

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From 3eca0327a35027a4ef920bdf3e2b732c9b6a0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 11/27] fix: a struct update whose allocation failed is empty
 instead of crashing

---
 gel/data_structures/struct_update.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gel/data_structures/struct_update.c b/gel/data_structures/struct_update.c
index 47d89a7..441dcf6 100644
--- a/gel/data_structures/struct_update.c
+++ b/gel/data_structures/struct_update.c
@@ -8,7 +8,11 @@
 struct_update_t struct_update_from_data(size_t offset, void *data, size_t size) {
     struct_update_t update = {.offset = offset, .size = size};
     update.data            = malloc(size);
-    memcpy(update.data, data, size);
+    if (update.data != NULL) {
+        memcpy(update.data, data, size);
+    } else {
+        update.size = 0;     // No memory: the update is empty and applying it changes nothing
+    }
 
     return update;
 }
@@ -16,7 +20,9 @@ struct_update_t struct_update_from_data(size_t offset, void *data, size_t size)
 
 void struct_update_apply(void *dest, struct_update_t update) {
     uint8_t *bytes = dest;
-    memcpy(&bytes[update.offset], update.data, update.size);
+    if (update.size > 0) {
+        memcpy(&bytes[update.offset], update.data, update.size);
+    }
 }
 
 
-- 
2.43.0


From 537c14397e690f701ca3e1d5138b15724a62a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 12/27] fix: STRUCT_UPDATE_ARRAY computes the right size when
 the length is an expression

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..de0318e 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), array, sizeof((array)[0]) * (length));
 
 
 typedef struct {
-- 
2.43.0


From 94f31faa9cf6a30b62430cd42dc4e7553d1463ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 13/27] fix: setting a debounce filter also forgets the changes
 in progress

---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..6c1c714 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = set;
+    filter->buffered  = set;
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From ae71386288f14fa6f83583142c94c696fd6612d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 14/27] fix: initialising a pulse filter also initialises its
 debounce counts

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From 305970294538ec064b79bbc0088d43ac6913784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 15/27] fix: remaining duration of a past-midnight schedule is
 right in the early hours

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..04ca30a 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -224,6 +224,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // The entry started yesterday and ends today
+    if (end > seconds_in_day && current < end - seconds_in_day) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 4b930f102d4aa4290eced4e205a79003dff23022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 16/27] fix: 64 bit parameter limits are no longer truncated to
 32 bits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From 826b442c9fca21024957cb814e22376ab7dd8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 17/27] fix: free access parameters are counted like they are
 enumerated

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..ec1c2f3 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || (ps[i].access_level & al) > 0)
             count++;
     }
 
-- 
2.43.0


From 7a2973b989d32522eb17d3efecb5b9b29e6c9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 18/27] fix: int8 parameters keep their sign when converted to
 long

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index ec1c2f3..0bd6921 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From c24f72d5d1edd6a2fd2f9d6a870a7335aa7d1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 19/27] fix: a not-a-number parameter counts as out of range

---
 gel/parameter/parameter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 0bd6921..ff12e38 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -19,9 +19,9 @@
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
         int  res = 0;                                                                                                  \
-        if (newv > max)                                                                                                \
+        if (!(newv <= max))                                                                                            \
             res = 1;                                                                                                   \
-        else if (newv < min)                                                                                           \
+        else if (!(newv >= min))                                                                                       \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
@@ -33,9 +33,9 @@
         TYPE  min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                   \
         TYPE  max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                   \
         int   res = 0;                                                                                                 \
-        if (*var > max)                                                                                                \
+        if (!(*var <= max))                                                                                            \
             res = 1;                                                                                                   \
-        else if (*var < min)                                                                                           \
+        else if (!(*var >= min))                                                                                       \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
-- 
2.43.0


From 79717f403ac4010aadb9e6db40a2e56373dbd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 20/27] fix: a null error also leaves the pid integral history

---
 gel/pid/pid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..d1edfcc 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,9 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        // Do not leave an old value in the history
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From 37cc2785955fefe9272f1e84c8081079b3d15aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 21/27] fix: give debounce.c its line endings back

---
 gel/debounce/debounce.c | 108 ++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 6c1c714..e84cb38 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,55 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = set;
+    filter->buffered  = set;
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 7b56e8309d2c88c7d1bc03f2666b68673d845e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 22/27] fix: serializer macros work with variables named tmp or
 size

---
 gel/serializer/serializer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..c150612 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -16,41 +16,41 @@
 
 #define UNPACK_UINT16_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint16_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint16_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint16_t unpack_value_;                                                                                        \
+        size_t   unpack_size_ = deserialize_uint16_be(&unpack_value_, (buffer));                                       \
+        (var)         = unpack_value_;                                                                                 \
+        unpack_size_;                                                                                                  \
     })
 
 #define UNPACK_UINT32_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint32_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint32_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint32_t unpack_value_;                                                                                        \
+        size_t   unpack_size_ = deserialize_uint32_be(&unpack_value_, (buffer));                                       \
+        (var)         = unpack_value_;                                                                                 \
+        unpack_size_;                                                                                                  \
     })
 
 #define UNPACK_UINT8(var, buffer)                                                                                      \
     ({                                                                                                                 \
-        uint8_t tmp;                                                                                                   \
-        size_t  size = deserialize_uint8(&tmp, (buffer));                                                              \
-        (var)        = tmp;                                                                                            \
-        size;                                                                                                          \
+        uint8_t unpack_value_;                                                                                         \
+        size_t  unpack_size_ = deserialize_uint8(&unpack_value_, (buffer));                                            \
+        (var)        = unpack_value_;                                                                                  \
+        unpack_size_;                                                                                                  \
     })
 
 
 #define PACK_UINT16_BE(buffer, var)                                                                                    \
     ({                                                                                                                 \
-        uint16_t tmp  = (uint16_t)(var);                                                                               \
-        size_t   size = serialize_uint16_be((buffer), tmp);                                                            \
-        size;                                                                                                          \
+        uint16_t pack_value_  = (uint16_t)(var);                                                                       \
+        size_t   pack_size_ = serialize_uint16_be((buffer), pack_value_);                                              \
+        pack_size_;                                                                                                    \
     })
 
 #define PACK_UINT8(buffer, var)                                                                                        \
     ({                                                                                                                 \
-        uint8_t tmp  = (uint8_t)(var);                                                                                 \
-        size_t  size = serialize_uint8((buffer), tmp);                                                                 \
-        size;                                                                                                          \
+        uint8_t pack_value_  = (uint8_t)(var);                                                                         \
+        size_t  pack_size_ = serialize_uint8((buffer), pack_value_);                                                   \
+        pack_size_;                                                                                                    \
     })
 
 
-- 
2.43.0


From 7a3dc5f56210b273b2255692ef3fe7737330aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 23/27] fix: time checks work for timestamps narrower or wider
 than long

---
 gel/timer/timecheck.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..ac99809 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,13 +24,26 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+#define time_after(a, b)                                                                                               \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && timecheck_negative((timestamp_t)((b) - (a))))
+#define time_after_or_equal(a, b)                                                                                      \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && timecheck_not_positive((timestamp_t)((b) - (a))))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
 
 
+// Sign of the difference between two timestamps, whatever the width of their type
+static inline __attribute__((always_inline)) int timecheck_negative(timestamp_t difference) {
+    return (difference >> (sizeof(timestamp_t) * 8 - 1)) & 1;
+}
+
+
+static inline __attribute__((always_inline)) int timecheck_not_positive(timestamp_t difference) {
+    return difference == 0 || timecheck_negative(difference);
+}
+
+
 static inline __attribute__((always_inline)) timestamp_t time_interval(timestamp_t a, timestamp_t b) {
     if (time_after(a, b))
         return -((timestamp_t)b - (timestamp_t)a);
@@ -41,13 +54,13 @@ static inline __attribute__((always_inline)) timestamp_t time_interval(timestamp
 
 static inline __attribute__((always_inline)) int is_loosely_expired(timestamp_t start, timestamp_t current,
                                                                     timestamp_t delay) {
-    return time_after_or_equal(current, start + delay);
+    return time_after_or_equal(current, (timestamp_t)(start + delay));
 }
 
 
 static inline __attribute__((always_inline)) int is_strictly_expired(timestamp_t start, timestamp_t current,
                                                                      timestamp_t delay) {
-    return time_after(current, start + delay);
+    return time_after(current, (timestamp_t)(start + delay));
 }
 
 
-- 
2.43.0


From af525067e3d7b3bf7c75d3c52b950fa389563af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 24/27] fix: page manager declarations were disabled, the
 module could not be compiled

---
 gel/pagemanager/page_manager.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..6b7ffa8 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -145,5 +143,3 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
 #endif
-
-#endif
-- 
2.43.0


From fcb7803ce2d1a1d5f1d057de09df3e7c6dac747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 25/27] fix: page manager lost the pages below the current one
 when built with NDEBUG

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..cc9e660 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -170,7 +170,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t result = navigation_stack_push(&pman->page_stack, current);
+        assert(result != PUSH_RESULT_FULL);
+        (void)result;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From c7fad62dbbef7c8d5edc6d78c55fa6dfae992989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 26/27] fix: page manager without a page closed and destroyed a
 stale one, and did not notice the first page given by swap or rebase

---
 gel/pagemanager/page_manager.c | 44 +++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index cc9e660..007a87e 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -22,6 +22,23 @@ static void clear_page_stack(page_manager_t *pman) {
 }
 
 
+// Closes and destroys the current page, if there is one
+static void discard_current_page(page_manager_t *pman) {
+    pman_page_t *current = &pman->current_page;
+
+    if (!pman->initialized) {
+        return;
+    }
+
+    if (current->close) {
+        current->close(current->data);
+    }
+    if (current->destroy) {
+        current->destroy(current->data, current->extra);
+    }
+}
+
+
 void pman_init(page_manager_t *pman) {
     pman->initialized = 0;
     navigation_stack_init(&pman->page_stack);
@@ -35,15 +52,9 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 
 
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
-    pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    discard_current_page(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -76,12 +87,7 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    discard_current_page(pman);
     // Deinitialize the stack, we currently have no page
     pman->initialized = 0;
 
@@ -117,17 +123,11 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 
 
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
-    pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    discard_current_page(pman);
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From 30947588cf241b42002963875c3dac2797a5b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 27/27] fix: the number of values of a parameter does not
 overflow when its limits span more than a signed type holds

---
 gel/parameter/parameter.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index ff12e38..69b644a 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -57,7 +57,16 @@
     }
 
 
+// The difference of two values of a signed type may not fit in it
 #define GET_RANGE(p, TYPE, name)                                                                                       \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        (size_t)max - (size_t)min + 1;                                                                                 \
+    })
+
+
+#define GET_REAL_RANGE(p, TYPE, name)                                                                                  \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
@@ -535,12 +544,12 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                len = GET_RANGE((*handle), float, f);
+                len = GET_REAL_RANGE((*handle), float, f);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                len = GET_RANGE((*handle), double, d);
+                len = GET_REAL_RANGE((*handle), double, d);
                 break;
 #endif
         }
-- 
2.43.0

