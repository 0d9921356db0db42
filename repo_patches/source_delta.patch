From 344b03251ed6e2dc94af8cd7051ade0769e78cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 01/33] fix: clip 64-bit range bounds of 32-bit bitmap
 operations at 2^32 instead of wrapping

add_range, remove_range, flip, flip_inplace, contains_range and
range_cardinality truncated bounds above 2^32 to 32 bits, and
intersect_with_range truncated its lower bound, so ranges outside the
universe touched or matched values near zero.
---
 include/roaring/roaring.h | 10 ++++++++--
 src/roaring.c             | 24 ++++++++++++++++++------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/roaring/roaring.h b/include/roaring/roaring.h
index a45b1da..33265e7 100644
--- a/include/roaring/roaring.h
+++ b/include/roaring/roaring.h
@@ -401,9 +401,12 @@ void roaring_bitmap_add_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_add_range(roaring_bitmap_t *r, uint64_t min,
                                      uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > (uint64_t)UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_add_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
@@ -423,9 +426,12 @@ void roaring_bitmap_remove_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_remove_range(roaring_bitmap_t *r, uint64_t min,
                                         uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > (uint64_t)UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_remove_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..8b5ddef 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1331,9 +1331,12 @@ uint64_t roaring_bitmap_get_cardinality(const roaring_bitmap_t *r) {
 uint64_t roaring_bitmap_range_cardinality(const roaring_bitmap_t *r,
                                           uint64_t range_start,
                                           uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return 0;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_range_cardinality_closed(r, (uint32_t)range_start,
                                                    (uint32_t)(range_end - 1));
 }
@@ -2013,9 +2016,12 @@ static void inplace_fully_flip_container(roaring_array_t *x1_arr, uint16_t hb) {
 roaring_bitmap_t *roaring_bitmap_flip(const roaring_bitmap_t *x1,
                                       uint64_t range_start,
                                       uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return roaring_bitmap_copy(x1);
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_flip_closed(x1, (uint32_t)range_start,
                                       (uint32_t)(range_end - 1));
 }
@@ -2074,9 +2080,12 @@ roaring_bitmap_t *roaring_bitmap_flip_closed(const roaring_bitmap_t *x1,
 
 void roaring_bitmap_flip_inplace(roaring_bitmap_t *x1, uint64_t range_start,
                                  uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_flip_inplace_closed(x1, (uint32_t)range_start,
                                        (uint32_t)(range_end - 1));
 }
@@ -2748,8 +2757,8 @@ bool roaring_bitmap_intersect(const roaring_bitmap_t *x1,
 
 bool roaring_bitmap_intersect_with_range(const roaring_bitmap_t *bm, uint64_t x,
                                          uint64_t y) {
-    if (x >= y) {
-        // Empty range.
+    if (x >= y || x > (uint64_t)UINT32_MAX) {
+        // Empty range, or no representable value in it.
         return false;
     }
     roaring_uint32_iterator_t it;
@@ -2849,9 +2858,12 @@ bool roaring_bitmap_contains(const roaring_bitmap_t *r, uint32_t val) {
  */
 bool roaring_bitmap_contains_range(const roaring_bitmap_t *r,
                                    uint64_t range_start, uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return true;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_contains_range_closed(r, (uint32_t)range_start,
                                                 (uint32_t)(range_end - 1));
 }
-- 
2.43.0


From 8738d6bb65171514309c6d564bb00a83c0fff479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 02/33] fix: roaring_bitmap_rank_many answers values beyond the
 last container

The loop stopped with the last container and left the remaining answers
unwritten.
---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 8b5ddef..8648e04 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2637,6 +2637,10 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // values beyond the last container
+    for (; iter != end; iter++) {
+        *(ans++) = size;
+    }
 }
 
 /**
-- 
2.43.0


From 3a74545e2242e006f9142df812cdf2d98d6294d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 03/33] fix: ra_range_uint32_array keeps the bitmap's type
 codes and uses the free hook

The typecode of a shared (copy-on-write) container was overwritten with the
type of the container it wraps, corrupting the bitmap, and the temporary
buffer obtained from roaring_malloc was released with free().
---
 src/roaring_array.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..75aae65 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t typecode = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (typecode) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
@@ -511,7 +512,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From e3012c3d150fc295012192a2b1db9e7b1753cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 04/33] fix: roaring_bitmap_from_range terminates for steps of
 65536 and more

The 32-bit loop counter wrapped past the end of the universe, adding wrong
values or never finishing.
---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 8648e04..9ce8a81 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From 54d57e19de9e41bdacabcc9e128a92abdbe16244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 05/33] fix: frozen serialization of bitmaps with shared
 (copy-on-write) containers

frozen_size_in_bytes and frozen_serialize did not unwrap shared containers
and ran into unreachable code.
---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 9ce8a81..e95205d 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2961,19 +2961,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3004,20 +3006,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3036,10 +3040,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3053,7 +3059,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3061,8 +3067,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3073,9 +3078,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = typecode;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From 5517f2bb51fe24254e82344bfd05c9a2d76e02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 06/33] fix: roaring64_bitmap_remove_bulk drops the context's
 leaf when it is erased

---
 src/roaring64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..d9cb509 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -755,13 +755,17 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            // The leaf the context pointed at is gone.
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
-        context->leaf = leaf;
+        bool removed =
+            containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        // If the container was removed, so was the leaf pointing to it.
+        context->leaf = removed ? NULL : leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
 }
-- 
2.43.0


From f56634b8751feea51b90294fea984bc137e2d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 07/33] fix: roaring64_bitmap_contains_range notices a missing
 last container

---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index d9cb509..3e6b15d 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -540,9 +540,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range. All containers seen so far
+            // contain the range, check below that none is missing at its end.
+            break;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From 9e7d74164d36b367ea030b06eaba34e2ae80fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 08/33] fix: roaring64_iterator_read marks the iterator as past
 the end

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 3e6b15d..5acc445 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2703,6 +2703,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From f405f85c2cd562c2b453a5ea386aa38775667401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 09/33] fix: roaring_bitmap_remove_many unshares copy-on-write
 containers before changing them

---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index e95205d..bf9afb4 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -673,6 +673,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
             pos = ra_get_index(&r->high_low_container, key);
         }
         if (pos >= 0) {
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             uint8_t new_typecode;
             container_t *new_container;
             new_container = container_remove(
-- 
2.43.0


From d10ce6bc45b3c378c623d789700418e12e66004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 10/33] fix: clone a shared container before dropping the
 reference to it

---
 src/containers/containers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..0127cc5 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -229,12 +229,17 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
     container_t *answer;
-    if (croaring_refcount_dec(&sc->counter)) {
+    if (croaring_refcount_get(&sc->counter) == 1) {
+        // We hold the only reference, nobody else can create another one.
+        croaring_refcount_dec(&sc->counter);
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
     } else {
+        // Clone while still holding our reference: once it is dropped, the
+        // other holders may modify or free the container at any time.
         answer = container_clone(sc->container, *typecode);
+        shared_container_free(sc);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From d9881c21c12cc93c36b48431a51656eefa00b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 11/33] fix: shrink_to_fit leaves containers shared with other
 bitmaps alone

---
 src/roaring.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index bf9afb4..010bede 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1436,6 +1436,15 @@ size_t roaring_bitmap_shrink_to_fit(roaring_bitmap_t *r) {
         uint8_t type_original;
         container_t *c = ra_get_container_at_index(&r->high_low_container,
                                                    (uint16_t)i, &type_original);
+        if (type_original == SHARED_CONTAINER_TYPE) {
+            // Other bitmaps, maybe in other threads, can be reading a shared
+            // container: only shrink it if this bitmap is the last one using it
+            if (croaring_refcount_get(&CAST_shared(c)->counter) != 1) continue;
+            ra_unshare_container_at_index(&r->high_low_container, (uint16_t)i);
+            answer += sizeof(shared_container_t);
+            c = ra_get_container_at_index(&r->high_low_container, (uint16_t)i,
+                                          &type_original);
+        }
         answer += container_shrink_to_fit(c, type_original);
     }
     answer += ra_shrink_to_fit(&r->high_low_container);
-- 
2.43.0


From 6da49917e3096e58f39957d63aa787abff8953fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 12/33] fix: single-threaded reference count compares the
 count, not its address, with zero

---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..2d5da3b 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -559,7 +559,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From 02252bd58ac4e610eaeb2f347d458645af0c530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 13/33] fix: bitset_shift_left on a bitset without words read
 before its array

---
 src/bitset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..dfc4b55 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,6 +90,9 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) {
+        return;  // nothing to shift
+    }
     if (inword_shift == 0) {
         bitset_resize(bitset, as + extra_words, false);
         // could be done with a memmove
-- 
2.43.0


From cc9183d334120807b28a6b54fa77defa0f3109ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 14/33] fix: bitset_shift_right by the whole size or more wrote
 out of bounds

---
 src/bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index dfc4b55..7056b8c 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -119,6 +119,11 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {
+        // every bit is shifted out
+        bitset_resize(bitset, 0, false);
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From d41cb3668c7011fd3aff76203486943c700e98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 15/33] fix: bitset_trim of a bitset without set bits left a
 dangling array

---
 src/bitset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 7056b8c..e605592 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -481,6 +481,14 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {
+        // reallocating to zero bytes may release the array and return NULL
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From 74e8f6bf4a0c3bb54e20fa76c037ec956634f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 16/33] fix: bitset_create_with_capacity overflowed for sizes
 close to SIZE_MAX

---
 src/bitset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index e605592..615fed0 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -49,8 +49,8 @@ bitset_t *bitset_create_with_capacity(size_t size) {
     if ((bitset = (bitset_t *)roaring_malloc(sizeof(bitset_t))) == NULL) {
         return NULL;
     }
-    bitset->arraysize =
-        (size + sizeof(uint64_t) * 8 - 1) / (sizeof(uint64_t) * 8);
+    bitset->arraysize = size / (sizeof(uint64_t) * 8) +
+                        (size % (sizeof(uint64_t) * 8) != 0 ? 1 : 0);
     bitset->capacity = bitset->arraysize;
     if ((bitset->array = (uint64_t *)roaring_calloc(
              bitset->arraysize, sizeof(uint64_t))) == NULL) {
-- 
2.43.0


From ea4d6d16bd957c3d9137568cf95eb4768bda17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 17/33] fix: roaring_bitmap_add_bulk unshares a container its
 context was left at by a lookup

---
 src/roaring.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 010bede..8c1247d 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -113,6 +113,14 @@ static inline void add_bulk_impl(roaring_bitmap_t *r,
         context->key = key;
     } else {
         // no need to seek the container, it is at hand
+        if (context->typecode == SHARED_CONTAINER_TYPE) {
+            // a lookup left the context at a container that other bitmaps share
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)context->idx);
+            context->container = ra_get_container_at_index(
+                &r->high_low_container, (uint16_t)context->idx,
+                &context->typecode);
+        }
         // because we already have the container at hand, we can do the
         // insertion directly, bypassing the roaring_bitmap_add call
         uint8_t new_typecode;
-- 
2.43.0


From 318eb07708843b542a67253749a9889cb1a1697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 18/33] fix: shrinking array and run containers reports bytes,
 not elements

---
 src/containers/array.c | 3 ++-
 src/containers/run.c   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/array.c b/src/containers/array.c
index 4b5e5bc..13e2923 100644
--- a/src/containers/array.c
+++ b/src/containers/array.c
@@ -128,7 +128,8 @@ void array_container_offset(const array_container_t *c, container_t **loc,
 
 int array_container_shrink_to_fit(array_container_t *src) {
     if (src->cardinality == src->capacity) return 0;  // nothing to do
-    int savings = src->capacity - src->cardinality;
+    int savings =
+        (src->capacity - src->cardinality) * (int)sizeof(uint16_t);
     src->capacity = src->cardinality;
     if (src->capacity ==
         0) {  // we do not want to rely on realloc for zero allocs
diff --git a/src/containers/run.c b/src/containers/run.c
index 986db6d..1431aca 100644
--- a/src/containers/run.c
+++ b/src/containers/run.c
@@ -107,7 +107,7 @@ run_container_t *run_container_create_given_capacity(int32_t size) {
 
 int run_container_shrink_to_fit(run_container_t *src) {
     if (src->n_runs == src->capacity) return 0;  // nothing to do
-    int savings = src->capacity - src->n_runs;
+    int savings = (src->capacity - src->n_runs) * (int)sizeof(rle16_t);
     src->capacity = src->n_runs;
     rle16_t *oldruns = src->runs;
     src->runs =
-- 
2.43.0


From d4386512ee80bd149191fca99e63bab7d318ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 19/33] fix: roaring_bitmap_lazy_or_inplace of a bitmap with
 itself read released containers

---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 8c1247d..b9d2c55 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2352,6 +2352,8 @@ roaring_bitmap_t *roaring_bitmap_lazy_or(const roaring_bitmap_t *x1,
 void roaring_bitmap_lazy_or_inplace(roaring_bitmap_t *x1,
                                     const roaring_bitmap_t *x2,
                                     const bool bitsetconversion) {
+    if (x1 == x2) return;  // converting a container would release its operand
+
     uint8_t result_type = 0;
     int length1 = x1->high_low_container.size;
     const int length2 = x2->high_low_container.size;
-- 
2.43.0


From 9b7959f8dc7dd5077f7173f338a03d5cfb6c0848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 20/33] fix: roaring_bitmap_overwrite of a bitmap with itself
 copied released containers

---
 src/roaring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/roaring.c b/src/roaring.c
index b9d2c55..100fd41 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -519,6 +519,7 @@ roaring_bitmap_t *roaring_bitmap_copy(const roaring_bitmap_t *r) {
 
 bool roaring_bitmap_overwrite(roaring_bitmap_t *dest,
                               const roaring_bitmap_t *src) {
+    if (dest == src) return true;
     roaring_bitmap_set_copy_on_write(dest, is_cow(src));
     return ra_overwrite(&src->high_low_container, &dest->high_low_container,
                         is_cow(src));
-- 
2.43.0


From 713a50917b645d7122993a6d5b654ee7e5082916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 21/33] fix: Roaring::end() returned one iterator shared by all
 bitmaps

---
 cpp/roaring.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..5273bb6 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -911,7 +911,7 @@ class Roaring {
      * A bogus iterator that can be used together with begin()
      * for constructions such as for (auto i = b.begin(); * i!=b.end(); ++i) {}
      */
-    const_iterator &end() const;
+    const_iterator end() const;
 
     roaring_bitmap_t roaring;
 };
@@ -1021,9 +1021,8 @@ inline RoaringSetBitBiDirectionalIterator Roaring::begin() const {
     return RoaringSetBitBiDirectionalIterator(*this);
 }
 
-inline RoaringSetBitBiDirectionalIterator &Roaring::end() const {
-    static RoaringSetBitBiDirectionalIterator e(*this, true);
-    return e;
+inline RoaringSetBitBiDirectionalIterator Roaring::end() const {
+    return RoaringSetBitBiDirectionalIterator(*this, true);
 }
 
 }  // namespace roaring
-- 
2.43.0


From aa7d18e650424616a0be005fada83ec4818330d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 22/33] fix: Roaring -= and ^= with the same object used
 released containers

---
 cpp/roaring.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 5273bb6..148982a 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -341,6 +341,10 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator-=(const Roaring &r) noexcept {
+        if (this == &r) {  // the C function requires distinct bitmaps
+            api::roaring_bitmap_clear(&roaring);
+            return *this;
+        }
         api::roaring_bitmap_andnot_inplace(&roaring, &r.roaring);
         return *this;
     }
@@ -363,6 +367,10 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator^=(const Roaring &r) noexcept {
+        if (this == &r) {  // the C function requires distinct bitmaps
+            api::roaring_bitmap_clear(&roaring);
+            return *this;
+        }
         api::roaring_bitmap_xor_inplace(&roaring, &r.roaring);
         return *this;
     }
-- 
2.43.0


From 51997aa7c0ae144be8de42af15f85ced9f0d0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 23/33] fix: Roaring64Map iterator-- from end skipped no empty
 inner bitmap

---
 cpp/roaring64map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..b3c3306 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1835,7 +1835,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter == p->cend()) {
             --map_iter;
             roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
+            if (i.has_value) return orig;
         }
 
         roaring_uint32_iterator_previous(&i);
-- 
2.43.0


From fa5c0884039983ac552250128d51095016a4511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 24/33] fix: Roaring64Map iterator comparison read past the end
 of the map

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index b3c3306..99c91eb 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1849,13 +1849,13 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
-        if (o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
-        if (o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From e0e332f839a2ed23591d999d19eeb851405c1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 25/33] fix: Roaring64Map move_equalorlarger stopped at empty
 inner bitmaps

---
 cpp/roaring64map.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 99c91eb..002cdb8 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1800,6 +1800,8 @@ class Roaring64MapSetBitBiDirectionalIterator {
                 if (roaring_uint32_iterator_move_equalorlarger(
                         &i, Roaring64Map::lowBytes(x)))
                     return true;
+            }
+            while (!i.has_value) {
                 ++map_iter;
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
-- 
2.43.0


From 053dc7e39609469f36b689d5e943f2db77759b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 26/33] fix: Roaring64Map runOptimize and removeRunCompression
 reported the wrong result

---
 cpp/roaring64map.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 002cdb8..cf2baa6 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -986,9 +986,9 @@ class Roaring64Map {
      */
     bool removeRunCompression() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.removeRunCompression() && previous;
+                return map_entry.second.removeRunCompression() || previous;
             });
     }
 
@@ -1000,9 +1000,9 @@ class Roaring64Map {
      */
     bool runOptimize() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.runOptimize() && previous;
+                return map_entry.second.runOptimize() || previous;
             });
     }
 
-- 
2.43.0


From 827d0625335f200c617025b30c31cbeedcb4c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 27/33] fix: Roaring64Map::readSafe could read past the end of
 the buffer

---
 cpp/roaring64map.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index cf2baa6..d082c31 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1212,7 +1212,9 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            // (writing read_var again may take another number of bytes)
+            size_t tz =
+                api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
-- 
2.43.0


From 7ad25d7a00a1cb4cbd21135a69bc63caf83e171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 28/33] fix: roaring64_bitmap_frozen_view crashed or read too
 far on a truncated buffer

---
 src/roaring64.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 5acc445..b974243 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2478,9 +2478,17 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
     size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
     if (art_size == 0) {
+        // The nodes may be missing.
+        art_init_cleared(&r->art);
         roaring64_bitmap_free(r);
         return NULL;
     }
@@ -2499,6 +2507,8 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     const uint16_t *arrays = (const uint16_t *)buf;
     buf += total_sizes[ARRAY_CONTAINER_TYPE];
     if (maxbytes < (uint64_t)(buf - before_containers)) {
+        // The containers are not there yet.
+        art_init_cleared(&r->art);
         roaring64_bitmap_free(r);
         return NULL;
     }
-- 
2.43.0


From 2ca36a41885cd2b2bae176125dff44b6df8822cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 29/33] fix: ra_overwrite left both bitmaps broken when an
 allocation failed

---
 src/roaring_array.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 75aae65..9ab9f0c 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -126,8 +126,8 @@ void ra_init(roaring_array_t *new_ra) {
 bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
                   bool copy_on_write) {
     ra_clear_containers(dest);  // we are going to overwrite them
+    dest->size = 0;             // <--- This is important.
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
-        dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
     if (dest->allocation_size < source->size) {
@@ -140,14 +140,18 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
         for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+            container_t *c = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (c == NULL) {
+                dest->size = i;  // give back the containers shared so far
+                ra_clear(dest);
+                return false;
+            }
+            source->containers[i] = c;
+            // we do a shallow copy to the other bitmap
+            dest->containers[i] = c;
+            dest->typecodes[i] = source->typecodes[i];
         }
-        // we do a shallow copy to the other bitmap
-        memcpy(dest->containers, source->containers,
-               dest->size * sizeof(container_t *));
-        memcpy(dest->typecodes, source->typecodes,
-               dest->size * sizeof(uint8_t));
     } else {
         memcpy(dest->typecodes, source->typecodes,
                dest->size * sizeof(uint8_t));
-- 
2.43.0


From 56be97c91ec2d9fab7ea62348269b323265b598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 30/33] fix: roaring_uint32_iterator_copy wrote through NULL
 when out of memory

---
 src/roaring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/roaring.c b/src/roaring.c
index 100fd41..ee12e93 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1775,6 +1775,7 @@ roaring_uint32_iterator_t *roaring_uint32_iterator_copy(
     roaring_uint32_iterator_t *newit =
         (roaring_uint32_iterator_t *)roaring_malloc(
             sizeof(roaring_uint32_iterator_t));
+    if (newit == NULL) return NULL;
     memcpy(newit, it, sizeof(roaring_uint32_iterator_t));
     return newit;
 }
-- 
2.43.0


From 3d6e567b79e9ce275dbd051d8aca3935256ac882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 31/33] fix: bitset_shift_left wrote past the end when it could
 not grow

---
 src/bitset.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index 615fed0..4b93fdc 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -94,13 +94,17 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
         return;  // nothing to shift
     }
     if (inword_shift == 0) {
-        bitset_resize(bitset, as + extra_words, false);
+        if (!bitset_resize(bitset, as + extra_words, false)) {
+            return;
+        }
         // could be done with a memmove
         for (size_t i = as + extra_words; i > extra_words; i--) {
             bitset->array[i - 1] = bitset->array[i - 1 - extra_words];
         }
     } else {
-        bitset_resize(bitset, as + extra_words + 1, true);
+        if (!bitset_resize(bitset, as + extra_words + 1, true)) {
+            return;
+        }
         bitset->array[as + extra_words] =
             bitset->array[as - 1] >> (64 - inword_shift);
         for (size_t i = as + extra_words; i >= extra_words + 2; i--) {
-- 
2.43.0


From 35b4f6f9699bf0349c185e18f4eca292a32f10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 32/33] fix: reading a run container wrote through NULL when
 out of memory

---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 9ab9f0c..04bbda1 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -847,7 +847,7 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            run_container_t *c = run_container_create_given_capacity(n_runs);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From c5d73ef8c7fb3bfc22823150ca1162ada80ae3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 33/33] fix: roaring64_bitmap_move_from_roaring32 took over
 shared containers

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index b974243..c62c068 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -290,6 +290,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
         uint8_t typecode;
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
+        // 64-bit bitmaps do not share containers with other bitmaps
+        container = get_writable_copy_if_shared(container, &typecode);
 
         uint8_t high48[ART_KEY_BYTES];
         uint64_t high48_bits = key_base | ((uint64_t)key << 16);
-- 
2.43.0

