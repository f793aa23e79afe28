From b79296a3a84803bab8240cc2a4fb870826da81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 01/21] fix: keep the range start when an iterator seek moves
 to the next leaf

When a seek landed past the last key of a leaf, the iterator moved on to the
next leaf and always took that leaf for the first one of the range, so moving
backwards stopped there even when the previous leaf had keys in range.
---
 src/btree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 55752cf..8a4c458 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2858,8 +2858,14 @@ find_btree_node_and_get_idx_bounds(btree_iterator *itor,
    if (itor->curr.addr != itor->end_addr
        && itor->idx == btree_num_entries(itor->curr.hdr))
    {
+      // If the leaf we leave has no keys in range, then the next leaf is the
+      // first one of the iterator. (next_leaf() resets curr_min_idx.)
+      bool32 leaf_irrelevant =
+         itor->curr_min_idx == btree_num_entries(itor->curr.hdr);
       btree_iterator_next_leaf(itor);
-      itor->curr_min_idx = 0; // we came from an irrelevant leaf
+      if (leaf_irrelevant) {
+         itor->curr_min_idx = 0;
+      }
    }
    if (itor->curr_min_idx == -1 && itor->idx == -1) {
       btree_iterator_prev_leaf(itor);
-- 
2.43.0


From a48dcf4ba32377c438f22180649844f1d79a1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 02/21] fix: merge iterators return each key once after
 changing direction

Turning around stepped each input once, but inputs whose version of the current
key had been merged into the current item were already past it, so the current
key came back with part of its versions. Also forget key equalities recorded
before the turn, which could merge an unrelated or exhausted input.
---
 src/merge.c | 56 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index c764477..a18da43 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -425,6 +425,9 @@ setup_ordered_iterators(merge_iterator *merge_itor)
    merge_itor->num_remaining = merge_itor->num_trees;
    int i                     = 0;
    while (i < merge_itor->num_remaining) {
+      // forget equalities found in an earlier direction of travel
+      merge_itor->ordered_iterators[i]->next_key_equal = FALSE;
+
       // determine if the merge itor can go prev/next based upon ordered_itors
       if (iterator_can_prev(merge_itor->ordered_iterators[i]->itor)) {
          merge_itor->can_prev = TRUE;
@@ -604,6 +607,16 @@ merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor)
    return STATUS_OK;
 }
 
+// Move itor one step in the given direction, if it can move that way.
+static inline platform_status
+merge_step_iterator(iterator *itor, bool32 forwards)
+{
+   if (forwards) {
+      return iterator_can_next(itor) ? iterator_next(itor) : STATUS_OK;
+   }
+   return iterator_can_prev(itor) ? iterator_prev(itor) : STATUS_OK;
+}
+
 /*
  *-----------------------------------------------------------------------------
  * merge_iterator_set_direction --
@@ -623,16 +636,47 @@ merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
    platform_status rc;
    merge_itor->forwards = forwards;
 
+   /*
+    * curr_key may point into a page held by one of the iterators we are about
+    * to move, so make a copy of it.
+    */
+   bool32 have_curr = !key_is_null(merge_itor->curr_key);
+   KEY_CREATE_LOCAL_COPY(rc,
+                         old_key,
+                         PROCESS_PRIVATE_HEAP_ID,
+                         have_curr ? merge_itor->curr_key
+                                   : NEGATIVE_INFINITY_KEY);
+   if (!SUCCESS(rc)) {
+      return rc;
+   }
+   merge_itor->curr_key  = NULL_KEY;
+   merge_itor->curr_data = NULL_MESSAGE;
+
    // Step every iterator, both alive and dead, in the appropriate direction.
    for (int i = 0; i < merge_itor->num_trees; i++) {
-      if (forwards && iterator_can_next(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_next(merge_itor->ordered_iterators[i]->itor);
+      rc = merge_step_iterator(merge_itor->ordered_iterators[i]->itor, forwards);
+      if (!SUCCESS(rc)) {
+         return rc;
       }
-      if (!forwards
-          && iterator_can_prev(merge_itor->ordered_iterators[i]->itor))
+      /*
+       * Iterators whose copy of the current key was merged into the current
+       * item had already moved past that key, so the step above only brought
+       * them back to it. Step them once more, so that it is not returned again.
+       */
+      if (have_curr
+          && iterator_can_curr(merge_itor->ordered_iterators[i]->itor))
       {
-         iterator_prev(merge_itor->ordered_iterators[i]->itor);
+         key     itor_key;
+         message itor_msg;
+         iterator_curr(
+            merge_itor->ordered_iterators[i]->itor, &itor_key, &itor_msg);
+         if (data_key_compare(merge_itor->cfg, itor_key, old_key) == 0) {
+            rc = merge_step_iterator(merge_itor->ordered_iterators[i]->itor,
+                                     forwards);
+            if (!SUCCESS(rc)) {
+               return rc;
+            }
+         }
       }
    }
 
-- 
2.43.0


From 673e647a06d0682f6a5ab9b870a229ac95557a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 03/21] fix: start backwards range iterators at the largest key
 of their branches

When a range iterator moves back to the previous leaf, each branch iterator is
positioned at its largest key, but the merge iterator was always set up to
travel forwards, so it started at the smallest of these keys and skipped the
others.
---
 src/merge.c | 32 ++++++++++++++++++++++++--------
 src/merge.h |  9 +++++++++
 src/trunk.c | 14 ++++++++------
 3 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index a18da43..6b520ab 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -509,10 +509,13 @@ setup_ordered_iterators(merge_iterator *merge_itor)
 
 /*
  *-----------------------------------------------------------------------------
- * merge_iterator_create --
+ * merge_iterator_create_in_direction --
  *
  *      Initialize a merge iterator for a forest of B-trees.
  *
+ *      If forwards, it starts at the smallest of the input iterators' current
+ *      keys, otherwise at the largest.
+ *
  *      Prerequisite:
  *         All input iterators must be homogeneous for data_type
  *
@@ -521,12 +524,13 @@ setup_ordered_iterators(merge_iterator *merge_itor)
  *-----------------------------------------------------------------------------
  */
 platform_status
-merge_iterator_create(platform_heap_id hid,
-                      data_config     *cfg,
-                      int              num_trees,
-                      iterator       **itor_arr,
-                      merge_behavior   merge_mode,
-                      merge_iterator **out_itor)
+merge_iterator_create_in_direction(platform_heap_id hid,
+                                   data_config     *cfg,
+                                   int              num_trees,
+                                   iterator       **itor_arr,
+                                   merge_behavior   merge_mode,
+                                   bool32           forwards,
+                                   merge_iterator **out_itor)
 {
    int             i;
    platform_status rc = STATUS_OK;
@@ -565,7 +569,7 @@ merge_iterator_create(platform_heap_id hid,
 
    merge_itor->cfg      = cfg;
    merge_itor->curr_key = NULL_KEY;
-   merge_itor->forwards = TRUE;
+   merge_itor->forwards = forwards;
 
    // index -1 initializes the pad variable
    for (i = -1; i < num_trees; i++) {
@@ -589,6 +593,18 @@ merge_iterator_create(platform_heap_id hid,
    return rc;
 }
 
+platform_status
+merge_iterator_create(platform_heap_id hid,
+                      data_config     *cfg,
+                      int              num_trees,
+                      iterator       **itor_arr,
+                      merge_behavior   merge_mode,
+                      merge_iterator **out_itor)
+{
+   return merge_iterator_create_in_direction(
+      hid, cfg, num_trees, itor_arr, merge_mode, TRUE, out_itor);
+}
+
 
 /*
  *-----------------------------------------------------------------------------
diff --git a/src/merge.h b/src/merge.h
index 0556e0f..e3c1ab1 100644
--- a/src/merge.h
+++ b/src/merge.h
@@ -101,6 +101,15 @@ merge_iterator_create(platform_heap_id hid,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor);
 
+platform_status
+merge_iterator_create_in_direction(platform_heap_id hid,
+                                   data_config     *cfg,
+                                   int              num_trees,
+                                   iterator       **itor_arr,
+                                   merge_behavior   merge_mode,
+                                   bool32           forwards,
+                                   merge_iterator **out_itor);
+
 platform_status
 merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor);
 
diff --git a/src/trunk.c b/src/trunk.c
index 8104068..788b0c5 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6329,12 +6329,14 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->itor[i] = &btree_itor->super;
    }
 
-   platform_status rc = merge_iterator_create(spl->heap_id,
-                                              spl->cfg.data_cfg,
-                                              range_itor->num_branches,
-                                              range_itor->itor,
-                                              MERGE_FULL,
-                                              &range_itor->merge_itor);
+   platform_status rc =
+      merge_iterator_create_in_direction(spl->heap_id,
+                                         spl->cfg.data_cfg,
+                                         range_itor->num_branches,
+                                         range_itor->itor,
+                                         MERGE_FULL,
+                                         start_type >= greater_than,
+                                         &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
       return rc;
    }
-- 
2.43.0


From c5c51db5d85b7ab599d9d74e32eabe375e7f53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 04/21] fix: do not release branches and filters that lookups
 may still read

A lookup reads the branches and filters of the trunk snapshot it started from
without references to them. Compaction only drained the readers of the latest
snapshot, and only after releasing the filters of the bundle, so lookups on
older snapshots could read extents which had been freed and reused. Record
which snapshot each thread reads, and wait for the readers of older snapshots
before releasing anything. Range iterators also read the root address without
the root lock.
---
 src/trunk.c | 72 +++++++++++++++++++++++++++++++++++++++++++++++++----
 src/trunk.h | 11 ++++++++
 2 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 788b0c5..3ffb6aa 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -1131,6 +1131,53 @@ trunk_root_get(trunk_handle *spl, trunk_node *root)
    platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
 }
 
+/*
+ *-----------------------------------------------------------------------------
+ * Snapshot readers
+ *
+ * A thread which reads branches or filters of a trunk snapshot without holding
+ * references to them does so between trunk_snapshot_read_begin, which fetches
+ * the latest root, and trunk_snapshot_read_end. A thread can have only one such
+ * read in progress.
+ *-----------------------------------------------------------------------------
+ */
+static inline void
+trunk_snapshot_read_begin(trunk_handle *spl, trunk_node *root)
+{
+   threadid tid = platform_get_tid();
+   platform_batch_rwlock_get(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
+   debug_assert(spl->snapshot_reader[tid].snapshot_no == 0);
+   spl->snapshot_reader[tid].snapshot_no = spl->snapshot_no;
+   trunk_node_get(spl->cc, spl->root_addr, root);
+   platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
+}
+
+static inline void
+trunk_snapshot_read_end(trunk_handle *spl)
+{
+   threadid tid = platform_get_tid();
+   debug_assert(spl->snapshot_reader[tid].snapshot_no != 0);
+   __sync_lock_release(&spl->snapshot_reader[tid].snapshot_no);
+}
+
+/*
+ * Wait until no thread reads from a snapshot older than snapshot_no.
+ */
+static inline void
+trunk_wait_for_older_snapshot_readers(trunk_handle *spl, uint64 snapshot_no)
+{
+   for (threadid tid = 0; tid < MAX_THREADS; tid++) {
+      uint64 wait = 1;
+      uint64 reading;
+      while ((reading = spl->snapshot_reader[tid].snapshot_no) != 0
+             && reading < snapshot_no)
+      {
+         platform_sleep_ns(wait);
+         wait = wait > 2048 ? wait : 2 * wait;
+      }
+   }
+}
+
 /*
  *-----------------------------------------------------------------------------
  * Fetch Trunk Nodes By Key and Height
@@ -1258,16 +1305,20 @@ trunk_claim_and_copy_root(trunk_handle *spl,      // IN
  * Switches in the given new root and releases the trunk root lock.
  *
  * Must be preceded with a call to trunk_claim_and_copy_root.
+ *
+ * Returns the number of the new snapshot.
  *-----------------------------------------------------------------------------
  */
-void
+uint64
 trunk_update_claimed_root(trunk_handle *spl,    // IN
                           trunk_node   *new_root) // IN
 {
    trunk_root_lock(spl);
-   spl->root_addr = new_root->addr;
+   spl->root_addr     = new_root->addr;
+   uint64 snapshot_no = ++spl->snapshot_no;
    trunk_root_unlock(spl);
    trunk_root_full_unclaim(spl);
+   return snapshot_no;
 }
 
 /*
@@ -1301,6 +1352,9 @@ trunk_update_claimed_root_and_unlock(trunk_handle *spl,    // IN
  *
  * Switches in the new root and releases all locks except for a write lock on
  * the output node.
+ *
+ * On return, there are no more readers of older snapshots, so the caller can
+ * release what it removes from the output node.
  *-----------------------------------------------------------------------------
  */
 void
@@ -1313,7 +1367,7 @@ trunk_copy_path_by_key_and_height(trunk_handle *spl,      // IN
    trunk_node node;
    trunk_claim_and_copy_root(spl, &node, old_root_addr);
    // Note we still hold a writelock on the new root
-   trunk_update_claimed_root(spl, &node);
+   uint64 snapshot_no = trunk_update_claimed_root(spl, &node);
    uint16 root_height = trunk_node_height(&node);
 
    for (uint16 h = root_height; h > height; h--) {
@@ -1335,6 +1389,8 @@ trunk_copy_path_by_key_and_height(trunk_handle *spl,      // IN
    debug_assert(trunk_key_compare(spl, trunk_min_key(spl, &node), target) <= 0);
    debug_assert(trunk_key_compare(spl, target, trunk_max_key(spl, &node)) < 0);
 
+   trunk_wait_for_older_snapshot_readers(spl, snapshot_no);
+
    *out_node = node;
 }
 
@@ -6218,7 +6274,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    trunk_node node;
-   trunk_node_get(spl->cc, spl->root_addr, &node);
+   trunk_snapshot_read_begin(spl, &node);
    memtable_end_lookup(spl->mt_ctxt);
 
    // index btrees
@@ -6278,6 +6334,9 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->num_branches++;
    }
 
+   // all branches are protected by blocking dec_ref
+   trunk_snapshot_read_end(spl);
+
    // have a leaf, use to establish local bounds
    key local_min =
       trunk_key_compare(spl, trunk_min_key(spl, &node), min_key) > 0
@@ -6968,7 +7027,7 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    }
 
    trunk_node node;
-   trunk_root_get(spl, &node);
+   trunk_snapshot_read_begin(spl, &node);
 
    // release memtable lookup lock
    memtable_end_lookup(spl->mt_ctxt);
@@ -7012,6 +7071,7 @@ found_final_answer_early:
       memtable_end_lookup(spl->mt_ctxt);
    } else {
       trunk_node_unget(spl->cc, &node);
+      trunk_snapshot_read_end(spl);
    }
    if (spl->cfg.use_stats) {
       threadid tid = platform_get_tid();
@@ -7665,6 +7725,7 @@ trunk_create(trunk_config     *cfg,
    spl->ts      = ts;
 
    platform_batch_rwlock_init(&spl->trunk_root_lock);
+   spl->snapshot_no = 1;
 
    srq_init(&spl->srq, platform_get_module_id(), hid);
 
@@ -7783,6 +7844,7 @@ trunk_mount(trunk_config     *cfg,
    srq_init(&spl->srq, platform_get_module_id(), hid);
 
    platform_batch_rwlock_init(&spl->trunk_root_lock);
+   spl->snapshot_no = 1;
 
    // find the unmounted super block
    spl->root_addr                      = 0;
diff --git a/src/trunk.h b/src/trunk.h
index 80ca36e..5e2221a 100644
--- a/src/trunk.h
+++ b/src/trunk.h
@@ -190,6 +190,17 @@ struct trunk_handle {
    platform_heap_id      heap_id;
    platform_batch_rwlock trunk_root_lock;
 
+   /*
+    * The snapshots of the trunk are numbered in the order in which their roots
+    * were installed. Each thread records the snapshot it reads from, if any, so
+    * that what is no longer in the trunk is only released once it cannot be
+    * reached from a snapshot which is still being read.
+    */
+   uint64 snapshot_no;
+   struct {
+      volatile uint64 snapshot_no; // 0 when not reading
+   } PLATFORM_CACHELINE_ALIGNED snapshot_reader[MAX_THREADS];
+
    // space reclamation
    uint64 est_tuples_in_compaction;
 
-- 
2.43.0


From f57d89638d69679d16663a9817d8f538eabf6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:30 +0000
Subject: [PATCH 05/21] fix: merge iterators skip keys inserted while they turn
 around

Turning around stepped each input once. If keys had meanwhile been inserted
between the current key and the position of an input over a live memtable, the
step landed on one of those, on the wrong side of the current key, so the
iterator returned keys out of order.
---
 src/merge.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index 6b520ab..6b2834e 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -675,23 +675,27 @@ merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
          return rc;
       }
       /*
-       * Iterators whose copy of the current key was merged into the current
-       * item had already moved past that key, so the step above only brought
-       * them back to it. Step them once more, so that it is not returned again.
+       * That step may not be enough to get to the other side of the current
+       * key: iterators whose copy of it was merged into the current item had
+       * already moved past it, and keys may have been inserted meanwhile
+       * between it and the position of an iterator over a live tree. Keep
+       * stepping, so that neither is returned now.
        */
-      if (have_curr
-          && iterator_can_curr(merge_itor->ordered_iterators[i]->itor))
+      while (have_curr
+             && iterator_can_curr(merge_itor->ordered_iterators[i]->itor))
       {
          key     itor_key;
          message itor_msg;
          iterator_curr(
             merge_itor->ordered_iterators[i]->itor, &itor_key, &itor_msg);
-         if (data_key_compare(merge_itor->cfg, itor_key, old_key) == 0) {
-            rc = merge_step_iterator(merge_itor->ordered_iterators[i]->itor,
-                                     forwards);
-            if (!SUCCESS(rc)) {
-               return rc;
-            }
+         int cmp = data_key_compare(merge_itor->cfg, itor_key, old_key);
+         if (forwards ? 0 < cmp : cmp < 0) {
+            break;
+         }
+         rc = merge_step_iterator(merge_itor->ordered_iterators[i]->itor,
+                                  forwards);
+         if (!SUCCESS(rc)) {
+            return rc;
          }
       }
    }
-- 
2.43.0


From 18ade7c5f8e33d91503aa7be9c4f7b9cf58bac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:30 +0000
Subject: [PATCH 06/21] fix: start flushes early enough for the branches to fit
 in the child

With large keys a trunk node has room for few branches. The hard limit could be
just above the soft limit at which pivots are flushed, so that flushing into a
non-empty child failed an assertion (e.g. 100-byte keys with the default
fanout and branch limits, after 50 MB of overwrites). Cap the soft limit at
about half of the hard limit.
---
 src/trunk.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 3ffb6aa..c61f687 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -9773,6 +9773,15 @@ trunk_config_init(trunk_config        *trunk_cfg,
    trunk_cfg->hard_max_branches_per_node =
       bytes_for_branches / sizeof(trunk_branch) - 1;
 
+   // A pivot is flushed when it has more than max_branches_per_node branches,
+   // into a child that can have as many. With large keys, the node must start
+   // flushing earlier for these to fit in the child (cf. trunk_room_to_flush).
+   uint64 max_flushable_branches =
+      (trunk_cfg->hard_max_branches_per_node - 2) / 2;
+   if (trunk_cfg->max_branches_per_node > max_flushable_branches) {
+      trunk_cfg->max_branches_per_node = max_flushable_branches;
+   }
+
    // Initialize point message btree
    btree_config_init(&trunk_cfg->btree_cfg, cache_cfg, trunk_cfg->data_cfg);
 
-- 
2.43.0


From 334b6cb333e3b4b9be4e6a483758429ce74bd709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 07/21] fix: keep the filters that a filter build reads

trunk_bundle_build_filters released the node before it read the node's
filters, so that a concurrent flush and compaction could free them. Read
them as part of a snapshot read.
---
 src/trunk.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index c61f687..256a47b 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4006,13 +4006,20 @@ trunk_compact_bundle_node_has_split(trunk_handle             *spl,
    return req->node_id != node->hdr->node_id;
 }
 
-static inline platform_status
-trunk_compact_bundle_node_get(trunk_handle             *spl,
-                              trunk_compact_bundle_req *req,
-                              trunk_node               *node)
+/*
+ * Begins a snapshot read, because callers read the filters of the node without
+ * holding references to them.
+ */
+static inline void
+trunk_compact_bundle_node_snapshot_get(trunk_handle             *spl,
+                                       trunk_compact_bundle_req *req,
+                                       trunk_node               *node)
 {
-   return trunk_node_get_by_key_and_height(
-      spl, key_buffer_key(&req->start_key), req->height, node);
+   trunk_node root;
+   trunk_snapshot_read_begin(spl, &root);
+   platform_status rc = trunk_node_get_by_key_and_height_from_root(
+      spl, key_buffer_key(&req->start_key), req->height, &root, node);
+   platform_assert_status_ok(rc);
 }
 
 static inline void
@@ -4303,10 +4310,8 @@ trunk_bundle_build_filters(void *arg, void *scratch)
 
    bool32 should_continue_build_filters = TRUE;
    while (should_continue_build_filters) {
-      trunk_node      node;
-      platform_status rc =
-         trunk_compact_bundle_node_get(spl, compact_req, &node);
-      platform_assert_status_ok(rc);
+      trunk_node node;
+      trunk_compact_bundle_node_snapshot_get(spl, compact_req, &node);
 
       platform_stream_handle stream;
       trunk_open_log_stream_if_enabled(spl, &stream);
@@ -4324,15 +4329,18 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       if (trunk_build_filter_should_abort(compact_req, &node)) {
          trunk_log_stream_if_enabled(spl, &stream, "leaf split, aborting\n");
          trunk_node_unget(spl->cc, &node);
+         trunk_snapshot_read_end(spl);
          goto out;
       }
       if (trunk_build_filter_should_skip(compact_req, &node)) {
          trunk_log_stream_if_enabled(
             spl, &stream, "bundle flushed, skipping\n");
+         trunk_snapshot_read_end(spl);
          goto next_node;
       }
 
       if (trunk_build_filter_should_reenqueue(compact_req, &node)) {
+         trunk_snapshot_read_end(spl);
          task_enqueue(spl->ts,
                       TASK_TYPE_NORMAL,
                       trunk_bundle_build_filters,
@@ -4351,6 +4359,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       trunk_node_unget(spl->cc, &node);
 
       trunk_build_filters(spl, compact_req, &filter_scratch);
+      trunk_snapshot_read_end(spl);
 
       trunk_log_stream_if_enabled(spl, &stream, "Filters built\n");
 
@@ -4361,7 +4370,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
          uint16 height    = filter_scratch.height;
          trunk_copy_path_by_key_and_height(
             spl, start_key, height, &node, &old_root_addr);
-         platform_assert_status_ok(rc);
 
          if (trunk_build_filter_should_abort(compact_req, &node)) {
             trunk_log_stream_if_enabled(
-- 
2.43.0


From 73ee79b59d757f0b17898b28acce57a164ba93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:24 +0000
Subject: [PATCH 08/21] fix: find the end of iterators over index nodes

find_key_in_node ignored its target in index nodes, so iterators with
height > 0 were empty within a node and leaf splits did not split the
leaf.
---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 8a4c458..101cfdb 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2559,7 +2559,7 @@ find_key_in_node(btree_iterator *itor,
       itor->height = (uint32)-1;
       return 0; // this iterator is invalid, so return 0 for all lookups
    } else {
-      tmp = btree_find_pivot(itor->cfg, hdr, itor->min_key, found);
+      tmp = btree_find_pivot(itor->cfg, hdr, target, found);
    }
 
    switch (position_rule) {
-- 
2.43.0


From 64d66c898d174328e4856559d7320fae3809d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:06 +0000
Subject: [PATCH 09/21] fix: return an error when mounting a device without
 valid allocator metadata

Opening a file whose creation was interrupted (or that is not a SplinterDB
device) aborted the process instead of failing.
---
 src/rc_allocator.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index 1fdc33e..023a043 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -448,21 +448,29 @@ rc_allocator_mount(rc_allocator      *al,
    // load the meta page from disk.
    status = io_read(
       io, al->meta_page, al->cfg->io_cfg->page_size, RC_ALLOCATOR_BASE_OFFSET);
-   platform_assert_status_ok(status);
+   if (!SUCCESS(status)) {
+      platform_error_log("Failed to read the meta page upon mount\n");
+      goto failed;
+   }
    // validate the checksum of the meta page.
    checksum128 currChecksum =
       platform_checksum128(al->meta_page,
                            sizeof(al->meta_page->splinters),
                            RC_ALLOCATOR_META_PAGE_CSUM_SEED);
    if (!platform_checksum_is_equal(al->meta_page->checksum, currChecksum)) {
-      platform_assert(0, "Corrupt Meta Page upon mount");
+      platform_error_log("Corrupt Meta Page upon mount\n");
+      status = STATUS_INVALID_STATE;
+      goto failed;
    }
 
    // load the ref counts from disk.
    uint32 io_size =
       ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
    status = io_read(io, al->ref_count, io_size, cfg->io_cfg->extent_size);
-   platform_assert_status_ok(status);
+   if (!SUCCESS(status)) {
+      platform_error_log("Failed to read the ref counts upon mount\n");
+      goto failed;
+   }
 
    for (uint64 i = 0; i < al->cfg->extent_capacity; i++) {
       if (al->ref_count[i] != 0) {
@@ -470,6 +478,10 @@ rc_allocator_mount(rc_allocator      *al,
       }
    }
    return STATUS_OK;
+
+failed:
+   rc_allocator_deinit(al);
+   return status;
 }
 
 
-- 
2.43.0


From b904833c566ebde31469b985ca61e0f03b5172a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:43 +0000
Subject: [PATCH 10/21] fix: persist the ref counts before the super block says
 unmounted

After a crash between the two writes the database opened with stale ref
counts and overwrote its own live extents.
---
 src/allocator.h    | 10 ++++++++++
 src/rc_allocator.c | 27 +++++++++++++++++++++------
 src/trunk.c        |  4 ++++
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/allocator.h b/src/allocator.h
index f142879..b6bdc84 100644
--- a/src/allocator.h
+++ b/src/allocator.h
@@ -132,6 +132,7 @@ typedef platform_status (*alloc_super_addr_fn)(allocator        *al,
                                                allocator_root_id spl_id,
                                                uint64           *addr);
 typedef void (*remove_super_addr_fn)(allocator *al, allocator_root_id spl_id);
+typedef platform_status (*persist_fn)(allocator *al);
 typedef uint64 (*get_size_fn)(allocator *al);
 typedef uint64 (*base_addr_fn)(const allocator *al, uint64 addr);
 
@@ -154,6 +155,8 @@ typedef struct allocator_ops {
    get_super_addr_fn    get_super_addr;
    remove_super_addr_fn remove_super_addr;
 
+   persist_fn persist;
+
    get_size_fn in_use;
 
    get_size_fn  get_capacity;
@@ -220,6 +223,13 @@ allocator_remove_super_addr(allocator *al, allocator_root_id spl_id)
    return al->ops->remove_super_addr(al, spl_id);
 }
 
+// Write the current ref counts to disk.
+static inline platform_status
+allocator_persist(allocator *al)
+{
+   return al->ops->persist(al);
+}
+
 static inline uint64
 allocator_in_use(allocator *al)
 {
diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index 023a043..24ffa8f 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -130,6 +130,16 @@ rc_allocator_remove_super_addr_virtual(allocator *a, allocator_root_id spl_id)
    rc_allocator_remove_super_addr(al, spl_id);
 }
 
+platform_status
+rc_allocator_persist(rc_allocator *al);
+
+platform_status
+rc_allocator_persist_virtual(allocator *a)
+{
+   rc_allocator *al = (rc_allocator *)a;
+   return rc_allocator_persist(al);
+}
+
 uint64
 rc_allocator_in_use(rc_allocator *al);
 
@@ -189,6 +199,7 @@ const static allocator_ops rc_allocator_ops = {
    .get_super_addr    = rc_allocator_get_super_addr_virtual,
    .alloc_super_addr  = rc_allocator_alloc_super_addr_virtual,
    .remove_super_addr = rc_allocator_remove_super_addr_virtual,
+   .persist           = rc_allocator_persist_virtual,
    .in_use            = rc_allocator_in_use_virtual,
    .get_capacity      = rc_allocator_get_capacity_virtual,
    .assert_noleaks    = rc_allocator_assert_noleaks_virtual,
@@ -485,16 +496,20 @@ failed:
 }
 
 
+platform_status
+rc_allocator_persist(rc_allocator *al)
+{
+   uint32 io_size =
+      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
+   return io_write(
+      al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+}
+
 void
 rc_allocator_unmount(rc_allocator *al)
 {
-   platform_status status;
-
    // persist the ref counts upon unmount.
-   uint32 io_size =
-      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
-   status =
-      io_write(al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+   platform_status status = rc_allocator_persist(al);
    platform_assert_status_ok(status);
    rc_allocator_deinit(al);
 }
diff --git a/src/trunk.c b/src/trunk.c
index 256a47b..576066d 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8041,6 +8041,10 @@ trunk_unmount(trunk_handle **spl_in)
    trunk_handle *spl = *spl_in;
    srq_deinit(&spl->srq);
    trunk_prepare_for_shutdown(spl);
+   // The super block may claim a clean unmount only once everything that it
+   // vouches for, including the ref counts, is on disk.
+   platform_status rc = allocator_persist(spl->al);
+   platform_assert_status_ok(rc);
    trunk_set_super_block(spl, FALSE, TRUE, FALSE);
    if (spl->cfg.use_stats) {
       for (uint64 i = 0; i < MAX_THREADS; i++) {
-- 
2.43.0


From 7a215e6c666217ad9f5323cba8b5f8206ddd5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 11/21] fix: limit a leaf split to the pivots its parent has
 room for

---
 src/trunk.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 576066d..f0995a8 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5834,6 +5834,17 @@ trunk_split_leaf(trunk_handle *spl,
          }
       }
    }
+   // The parent may have been split into more often since it was split itself,
+   // so that it has no room for all the new leaves. A leaf which remains too
+   // large splits again at a later flush.
+   uint64 max_num_leaves =
+      spl->cfg.max_pivot_keys - trunk_num_pivot_keys(spl, parent);
+   if (target_num_leaves > max_num_leaves && max_num_leaves != 0) {
+      target_num_leaves = max_num_leaves;
+      if (target_num_leaves == 1) {
+         comp_type = TRUNK_COMPACTION_TYPE_SINGLE_LEAF_SPLIT;
+      }
+   }
    uint64 target_leaf_kv_bytes = kv_bytes / target_num_leaves;
    uint16 num_leaves;
 
-- 
2.43.0


From 751d925f391cb02f5729f52ee3214bfc8c89d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 12/21] fix: count the pages that an extent sync wrote

---
 src/clockcache.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 2486c72..c3e931b 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2763,9 +2763,9 @@ clockcache_sync_callback(void           *arg,
                          platform_status status)
 {
    clockcache_sync_callback_req *req = (clockcache_sync_callback_req *)arg;
-   uint64 pages_written = clockcache_divide_by_page_size(req->cc, count);
-   clockcache_write_callback(req->cc, iovec, count, status);
-   __sync_fetch_and_sub(req->pages_outstanding, pages_written);
+   // count is the number of pages (vector elements) written
+   clockcache_write_callback(&req->cc, iovec, count, status);
+   __sync_fetch_and_sub(req->pages_outstanding, count);
 }
 
 /*
-- 
2.43.0


From 9851d24879d8667f36c8ecbf7769b027b70d32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 13/21] fix: let page_sync meet a writeback that is under way

---
 src/clockcache.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index c3e931b..c48a0bc 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2701,9 +2701,17 @@ clockcache_page_sync(clockcache  *cc,
    const threadid  tid  = platform_get_tid();
    platform_status status;
 
-   if (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
-      platform_assert(clockcache_test_flag(cc, entry_number, CC_CLEAN));
-      return;
+   while (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
+      uint32 page_status = clockcache_get_status(cc, entry_number);
+      if (page_status & CC_CLEAN) {
+         return;
+      }
+      // Another thread may have started to write the page back.
+      platform_assert(page_status & CC_WRITEBACK);
+      if (!is_blocking) {
+         return;
+      }
+      clockcache_wait(cc);
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From f6244cc32b74bb2d882139b220813b907b7f0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 14/21] fix: check prefetched entries before they can be
 evicted

---
 src/clockcache.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index c48a0bc..f050046 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2877,9 +2877,6 @@ clockcache_prefetch_callback(void           *metadata,
       } else {
          type = entry->type;
       }
-      debug_only uint32 was_loading =
-         clockcache_clear_flag(cc, entry_no, CC_LOADING);
-      debug_assert(was_loading);
 
       debug_code(int64 addr = entry->page.disk_addr);
       debug_assert(addr != CC_UNMAPPED_ADDR);
@@ -2887,6 +2884,11 @@ clockcache_prefetch_callback(void           *metadata,
                    || addr == last_addr + page_size);
       debug_code(last_addr = addr);
       debug_assert(entry_no == clockcache_lookup(cc, addr));
+
+      // The entry may be evicted and reused as soon as this flag is clear.
+      debug_only uint32 was_loading =
+         clockcache_clear_flag(cc, entry_no, CC_LOADING);
+      debug_assert(was_loading);
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From cd16b12db13a266bfaa468852402684dd3047416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 15/21] fix: mark log pages dirty before writing to them

---
 src/shard_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 7249bb6..a37e016 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -236,6 +236,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
          wait = wait > 1024 ? wait : 2 * wait;
       }
       cache_lock(cc, page);
+      cache_mark_dirty(cc, page);
    }
 
    shard_log_hdr *hdr    = (shard_log_hdr *)page->data;
-- 
2.43.0


From ef0e49ab6461ff930f9c8d4a2d539e040e96115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 16/21] fix: order log entries by their whole generation number

---
 src/shard_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index a37e016..8e324d6 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -321,7 +321,9 @@ shard_log_compare(const void *p1, const void *p2, void *unused)
 {
    log_entry **le1 = (log_entry **)p1;
    log_entry **le2 = (log_entry **)p2;
-   return (*le1)->generation - (*le2)->generation;
+   uint64      gen1 = (*le1)->generation;
+   uint64      gen2 = (*le2)->generation;
+   return gen1 < gen2 ? -1 : gen1 > gen2;
 }
 
 log_handle *
-- 
2.43.0


From d3e9a6fae8a56bede99348a3cbdba0b4eba78c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:31 +0000
Subject: [PATCH 17/21] fix: release the extent allocated ahead when a log is
 dropped

---
 src/shard_log.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 8e324d6..5f7f043 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -135,6 +135,18 @@ shard_log_zap(shard_log *log)
       thread_data->offset                = 0;
    }
 
+   /*
+    * The extent allocated ahead is not in the mini allocator's metadata. An
+    * iterator may have prefetched it.
+    */
+   allocator *al          = cache_get_allocator(cc);
+   uint64     next_extent = log->mini.next_extent[0];
+   uint8      ref         = allocator_dec_ref(al, next_extent, PAGE_TYPE_LOG);
+   platform_assert(ref == AL_NO_REFS);
+   cache_extent_discard(cc, next_extent, PAGE_TYPE_LOG);
+   ref = allocator_dec_ref(al, next_extent, PAGE_TYPE_LOG);
+   platform_assert(ref == AL_FREE);
+
    mini_unkeyed_dec_ref(cc, log->meta_head, PAGE_TYPE_LOG, FALSE);
 }
 
-- 
2.43.0


From bdc46d6a405ece1281f9df3dfeda05836ae0a0dd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 18/21] fix: compute routing filter value masks in 64 bits

found_values is a 64-bit mask, but the masks used to walk it and to test it
were int shifts: value 31 overflows and values from 32 on give a wrong mask,
so a filter that holds them is misread.
---
 src/routing_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing_filter.h b/src/routing_filter.h
index dfaae5d..7746e7c 100644
--- a/src/routing_filter.h
+++ b/src/routing_filter.h
@@ -109,7 +109,7 @@ static inline uint16
 routing_filter_get_next_value(uint64 found_values, uint16 last_value)
 {
    if (last_value != ROUTING_NOT_FOUND) {
-      uint64 mask = (1 << last_value) - 1;
+      uint64 mask = (1ULL << last_value) - 1;
       found_values &= mask;
    }
    if (found_values == 0) {
@@ -121,7 +121,7 @@ routing_filter_get_next_value(uint64 found_values, uint16 last_value)
 static inline bool32
 routing_filter_is_value_found(uint64 found_values, uint16 value)
 {
-   return ((found_values & (1 << value)) != 0);
+   return ((found_values & (1ULL << value)) != 0);
 }
 
 
-- 
2.43.0


From c8b9d3c6a4ab45212e3afcaefbcc8b995f754a10 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 19/21] fix: do not copy more than the new size in
 platform_shm_realloc

Shrinking a fragment copied oldsize bytes into the new, smaller fragment and
overwrote whatever was allocated behind it.
---
 src/platform_linux/shmem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index a76f8c1..57863e6 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -654,7 +654,7 @@ platform_shm_realloc(platform_heap_id hid,
 
       // Copy over old contents, if any, and free that memory piece
       if (oldptr) {
-         memcpy(retptr, oldptr, oldsize);
+         memcpy(retptr, oldptr, (oldsize < newsize) ? oldsize : newsize);
          platform_shm_free(hid, oldptr, "Unknown", func, file, lineno);
       }
    } else {
-- 
2.43.0


From 13c0d2398a271afa3ff458c35d69207d25d044aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 20/21] fix: start btree_count_in_range_by_iterator at the
 first key in range

The start of the iterator was given as TRUE, i.e. less_than_or_equal, so when
min_key is not in the tree the iterator stood before the range, and a tuple
read from in front of the first one was counted.
---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 101cfdb..9aae86d 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3380,7 +3380,7 @@ btree_count_in_range_by_iterator(cache             *cc,
                        min_key,
                        max_key,
                        min_key,
-                       TRUE,
+                       greater_than_or_equal,
                        TRUE,
                        0);
 
-- 
2.43.0


From f197b1f51d4987b7265a6b4e1053865b07ce7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:10 +0000
Subject: [PATCH 21/21] fix: release the mini allocator of an aborted btree
 pack

btree_pack_abort() dropped the extents of the unfinished tree without
releasing its mini allocator first, so the extents allocated ahead leaked (and
everything leaked if no tuple had been packed yet). Packs do hit their limit:
many tiny tuples are enough.
---
 src/btree.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index 9aae86d..7d80118 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3250,6 +3250,13 @@ btree_pack_abort(btree_pack_req *req)
       }
    }
 
+   if (req->num_tuples == 0) {
+      mini_destroy_unused(&req->mini);
+      return;
+   }
+
+   // The tree is never looked at, so any end key will do
+   mini_release(&req->mini, POSITIVE_INFINITY_KEY);
    btree_dec_ref_range(req->cc,
                        req->cfg,
                        req->root_addr,
-- 
2.43.0

