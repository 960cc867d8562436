From 46f01f4a472b60af1c820341a116e7ed050b4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 01/70] fix: reject non-sibling triangles in the family check

---
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..e870145 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,7 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0


From 907ae36a337fcfa295d8391b04624f9ca3e6ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 02/70] fix: check the type of the last tetrahedron in the
 family check

---
 src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
index 3cf1ef0..3ec9253 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
@@ -33,7 +33,7 @@ t8_dtet_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN - 1; local_ind++) {
+  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN; local_ind++) {
     if (f[local_ind]->type != t8_dtet_type_of_child_morton[type][local_ind]) {
       return 0;
     }
-- 
2.43.0


From 0f461df4ce544daa20581b5412ae3c4d8e13a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 03/70] fix: quad face transformation keeps the level when not
 done in place

---
 src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
index 071b6ac..5b3be48 100644
--- a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
+++ b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
@@ -439,7 +439,7 @@ t8_default_scheme_quad::element_transform_face (const t8_element_t *elem1, t8_el
     q = qin;
   }
 
-  p->level = q->level;
+  p->level = qin->level;
   /*
    * The faces of the root quadrant are enumerated like this:
    *
-- 
2.43.0


From 09f6a606d3538935314ac7acbbcc05233d0fa3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 04/70] fix: face descendant of a tetrahedron in a pyramid at
 its own level

---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..340044f 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -953,6 +953,7 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
     const int child_id = t8_dtet_parenttype_beyid_to_Iloc[p->pyramid.type][corner];
     t8_dpyramid_t tmp;
     t8_dpyramid_copy (p, &tmp);
+    t8_dpyramid_copy (p, d);
     for (int i = p->pyramid.level; i < level; i++) {
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
-- 
2.43.0


From 1752bd81a3de4fd48cbd38e0704a5342d62267d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:21 +0000
Subject: [PATCH 05/70] fix: standalone vertex face transformation writes its
 result

---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index c11e37c..3655d13 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -2189,6 +2189,7 @@ t8_standalone_scheme<T8_ECLASS_VERTEX>::element_transform_face ([[maybe_unused]]
                                                                 [[maybe_unused]] const int is_smaller_face) noexcept
 {
   T8_ASSERT (t8_standalone_scheme<T8_ECLASS_VERTEX>::element_is_valid (elem1));
+  element_copy (elem1, elem2);
   return;
 };
 
-- 
2.43.0


From ee6507f55ec55eee8976ae097771bbc1d3b3ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:51 +0000
Subject: [PATCH 06/70] fix: child id of a line element of maximum level

---
 src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
index 7d2423e..0cf6d64 100644
--- a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
@@ -177,7 +177,7 @@ t8_dline_face_parent_face (const t8_dline_t *line, int face)
 int
 t8_dline_child_id (const t8_dline_t *line)
 {
-  T8_ASSERT (line->level < T8_DLINE_MAXLEVEL);
+  T8_ASSERT (line->level <= T8_DLINE_MAXLEVEL);
   /* bitshifting the Levelbit to first position & check if it is 1 or 0 */
   return ((line->x >> (T8_DLINE_MAXLEVEL - line->level)) & 1);
 }
-- 
2.43.0


From 30685ec7c99103afcea2fc8a9a564d9139bce7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:47 +0000
Subject: [PATCH 07/70] fix: uniform bounds of empty processes on a replicated
 coarse mesh

---
 src/t8_cmesh/t8_cmesh.cxx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27c7e7c..06f294e 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1667,24 +1667,18 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
   if (last_child <= first_child) {
     /* This process is empty. */
     /* Find the next non-empty proc */
-    int next_non_empty = cmesh->mpirank + 1;
+    int next_non_empty = cmesh->mpirank;
     t8_gloidx_t first_child_next_non_empty = 0;
     t8_gloidx_t last_child_next_non_empty = 0;
+    /* The last process is never empty. */
     do {
+      next_non_empty++;
       first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
         (uint32_t) next_non_empty, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
       last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
         (uint32_t) next_non_empty + 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      next_non_empty++;
     } while (last_child_next_non_empty <= first_child_next_non_empty && next_non_empty < cmesh->mpisize - 1);
 
-    if (next_non_empty >= cmesh->mpisize - 1) {
-      next_non_empty = cmesh->mpisize - 1;
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize - 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-    }
     T8_ASSERT (first_child_next_non_empty < last_child_next_non_empty);
     // Loop over trees to find the one containing first_child_next_non_empty, which gives us the first and last local tree.
     t8_gloidx_t current_tree_element_offset = 0;
@@ -1700,11 +1694,14 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
         /* We have found the first tree; since this process is empty, we can immediately return,
            * ending the for loop. */
         *first_local_tree = igtree;
-        *last_local_tree = igtree - 1;
-        /* If our first element is not the very first element in the tree, we share
-           * this tree with the previous process. */
+        if (current_tree_element_offset < first_child_next_non_empty) {
+          /* The next nonempty process shares this tree. */
+          (*first_local_tree)++;
+        }
+        *last_local_tree = *first_local_tree - 1;
+        /* By definition an empty process does not share its first tree. */
         if (first_tree_shared != nullptr) {
-          *first_tree_shared = current_tree_element_offset < first_child_next_non_empty ? 1 : 0;
+          *first_tree_shared = 0;
         }
       }
       current_tree_element_offset += num_leaf_elems_in_tree;
-- 
2.43.0


From 7d0502727997d5b07575f39173bd996d26f25fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:56 +0000
Subject: [PATCH 08/70] fix: keep the requests of the sends for the partitioned
 uniform bounds

The vector of requests was passed by value, so that the final wait did not
wait for anything and the send buffer could be freed too early.
---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 06f294e..39faf16 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1778,7 +1778,7 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
 static void
 t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
-                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> send_requests,
+                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
                                    const t8_gloidx_t first_or_last_element_in_tree_index_of_iproc,
                                    t8_gloidx_t *first_or_last_local_tree, [[maybe_unused]] int8_t *first_tree_shared,
-- 
2.43.0


From 0fd9add14c9681cff7896ea61d13865a68f7782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:20 +0000
Subject: [PATCH 09/70] fix: weighted partition with weights that do not add up
 exactly

Round-off could make the number of process boundaries found in a partition
differ from the number computed up front, reading or leaving unset entries
of the local offsets.
---
 src/t8_forest/t8_forest_partition.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition.cxx b/src/t8_forest/t8_forest_partition.cxx
index ab37e09..58e1a18 100644
--- a/src/t8_forest/t8_forest_partition.cxx
+++ b/src/t8_forest/t8_forest_partition.cxx
@@ -575,8 +575,9 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
     }();
 
     // The [rank_begin, rank_end) slice of the new offsets will land in the local partition.
-    int const rank_begin = std::ceil (mpisize * partition_weight_offset / forest_weight);
-    int const rank_end = std::ceil (mpisize * (partition_weight_offset + partition_weight) / forest_weight);
+    int const rank_begin = std::min<int> (mpisize, std::ceil (mpisize * partition_weight_offset / forest_weight));
+    int const rank_end
+      = std::min<int> (mpisize, std::ceil (mpisize * (partition_weight_offset + partition_weight) / forest_weight));
     std::vector<t8_gloidx_t> local_offsets (rank_end - rank_begin, 0);
 
     // Prepare computation of local element offsets.
@@ -591,16 +592,20 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       for (t8_locidx_t ielm = 0; ielm < t8_forest_get_tree_num_leaf_elements (forest_from, ltreeid); ++ielm) {
         T8_ASSERT (0 <= global_elm_idx && global_elm_idx < global_num_leaf_elements);
         accumulated_weight += weight_fcn (forest_from, ltreeid, ielm);
-        while (accumulated_weight
-               > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
-          T8_ASSERT (rank_begin <= iproc && iproc < rank_end);
+        // Due to round-off errors in the weights, the ideal bound of rank_end may already be reached in this partition.
+        while (iproc < rank_end
+               && accumulated_weight
+                    > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
           local_offsets[iproc - rank_begin] = global_elm_idx;
           ++iproc;
         }
         ++global_elm_idx;
       }
     }
-    T8_ASSERT (iproc == rank_end);  // i.e. local_offsets has been filled properly
+    // Due to round-off errors in the weights, the last ideal bounds may be missed. They coincide with our upper bound.
+    for (; iproc < rank_end; ++iproc) {
+      local_offsets[iproc - rank_begin] = global_elm_idx;
+    }
 
     // Allgather local offsets into the global element offset array.
     t8_shmem_array_allgatherv (local_offsets.data (), local_offsets.size (), T8_MPI_GLOIDX, forest->element_offsets,
-- 
2.43.0


From bf2f3e0c201e9db921207a5dfdceaea4b68c139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 10/70] fix: recursive adaptation keeps elements that cannot be
 refined any further

If the callback asked to refine an element of the maximum level during
recursive refinement, the element was dropped from the forest.
---
 src/t8_forest/t8_forest_adapt.cxx | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 1c8e00d..13c70f7 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -343,20 +343,22 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
     const int num_children = scheme->element_get_num_children (tree_class, el_buffer[0]);
     const int is_family = 0;
     const int num_elements_to_adapt_callback = 1;
-    const int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme,
-                                             is_family, num_elements_to_adapt_callback, el_buffer);
+    int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme, is_family,
+                                       num_elements_to_adapt_callback, el_buffer);
     T8_ASSERT (refine != -1);
+    if (refine > 0
+        && (scheme->element_get_level (tree_class, el_buffer[0]) >= forest->maxlevel
+            || !scheme->element_is_refinable (tree_class, el_buffer[0]))) {
+      /* Only refine an element if it does not exceed the maximum level and if it is refinable */
+      refine = 0;
+    }
     if (refine == 1) {
       /* The element should be refined */
-      if (scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
-          && scheme->element_is_refinable (tree_class, el_buffer[0])) {
-        /* only refine if element is refinable and if we do not exceed the maximum allowed level */
-        /* Create the children and add them to the list */
-        scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
-        scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
-        for (int ci = num_children - 1; ci >= 0; ci--) {
-          (void) sc_list_prepend (elem_list, el_buffer[ci]);
-        }
+      /* Create the children and add them to the list */
+      scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
+      scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
+      for (int ci = num_children - 1; ci >= 0; ci--) {
+        (void) sc_list_prepend (elem_list, el_buffer[ci]);
       }
     }
     else if (refine == -2) {
-- 
2.43.0


From 3a47518ea391a9543930ebee7c69f7d0479e6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:53 +0000
Subject: [PATCH 11/70] fix: repartition the coarse mesh after balance with
 repartition

A balanced and repartitioned forest on a partitioned coarse mesh kept the
coarse mesh partition of its source and had local trees without a coarse tree.
---
 src/t8_forest/t8_forest.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 04ee2da..8b96212 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3407,6 +3407,7 @@ t8_forest_commit (t8_forest_t forest)
       }
       else {
         /* balance with repartition */
+        partitioned = 1;
         t8_forest_balance (forest, 1);
       }
     }
-- 
2.43.0


From 29ad515ca14c79be4ff7fbb638cccc1ca073b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:27 +0000
Subject: [PATCH 12/70] fix: detect the last sibling for recursive coarsening
 by the element itself

The number of children of a previously considered element was used, so that
families of elements with different numbers of children (pyramids) were not
offered for recursive coarsening.
---
 src/t8_forest/t8_forest_adapt.cxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 13c70f7..563f339 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -585,9 +585,6 @@ t8_forest_adapt (t8_forest_t forest)
            * This parent is now inserted in telements. */
           T8_ASSERT (scheme->element_get_level (tree->eclass, elements_from[0]) > 0);
           scheme->element_get_parent (tree->eclass, elements_from[0], elements[0]);
-          /* num_siblings is now equivalent to the number of children of elements[0],
-           * as num_siblings is always associated with elements_from*/
-          num_children = num_siblings;
           el_inserted++;
           if (forest->set_adapt_recursive) {
             /* Adaptation is recursive.
@@ -595,7 +592,8 @@ t8_forest_adapt (t8_forest_t forest)
              * family (and not the only one).
              * If so, we check this family for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0
+                && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
@@ -614,7 +612,8 @@ t8_forest_adapt (t8_forest_t forest)
              * If adaptation is recursive and this was the last element in its family
              * (and not the only one), we need to check for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0
+                && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
-- 
2.43.0


From e9ddff44ebe9637bf979d53adb6cede7527068ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:10 +0000
Subject: [PATCH 13/70] fix: ghost versions 1 and 2 register the remote
 elements again

---
 src/t8_forest/t8_forest_ghost.cxx | 66 ++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index f8c6230..f8591cd 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -825,16 +825,14 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
   t8_locidx_t num_local_trees, num_tree_elems;
   t8_locidx_t itree, ielem;
   t8_tree_t tree;
-  t8_eclass_t last_class;
 
   int iface, num_faces;
-  int num_face_children, max_num_face_children = 0;
+  int num_face_children;
   int owner;
   sc_array_t owners, tree_owners;
   int is_atom;
   const t8_scheme *scheme = t8_forest_get_scheme (forest);
 
-  last_class = T8_ECLASS_COUNT;
   num_local_trees = t8_forest_get_num_local_trees (forest);
   if (ghost_method != 0) {
     sc_array_init (&owners, sizeof (int));
@@ -854,7 +852,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       /* Get the element of the tree */
       const t8_element_t *elem = t8_forest_get_tree_leaf_element (tree, ielem);
       num_faces = scheme->element_get_num_faces (tree_class, elem);
-      if (scheme->element_get_level (tree_class, elem) == scheme->get_maxlevel (tree_class)) {
+      if (scheme->element_get_level (tree_class, elem) >= t8_forest_get_maxlevel (forest)) {
         /* flag to decide whether this element is at the maximum level */
         is_atom = 1;
       }
@@ -864,40 +862,54 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       for (iface = 0; iface < num_faces; iface++) {
         /* Get the element class of the neighbor tree */
         const t8_eclass_t neigh_class = t8_forest_element_neighbor_eclass (forest, itree, elem, iface);
+        if (neigh_class == T8_ECLASS_INVALID) {
+          /* This face is at the domain boundary. */
+          continue;
+        }
         if (ghost_method == 0) {
-          /* Use half neighbors */
-          /* Get the number of face children of the element at this face */
-          num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
-          /* regrow the half_neighbors array if necessary.
-           * We also need to reallocate it, if the element class of the neighbor
-           * changes */
-          if (max_num_face_children < num_face_children || last_class != neigh_class) {
-            half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
-            /* Allocate memory for the half size face neighbors */
-            scheme->element_new (neigh_class, num_face_children, half_neighbors);
-            max_num_face_children = num_face_children;
-            last_class = neigh_class;
-          }
+          /* Use half neighbors. An element of maximum level has no half neighbors, we use its neighbor then. */
+          num_face_children = is_atom ? 1 : scheme->element_get_num_face_children (tree_class, elem, iface);
+          half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
+          /* Allocate memory for the half size face neighbors */
+          scheme->element_new (neigh_class, num_face_children, half_neighbors);
+          t8_gloidx_t neighbor_tree;
           if (!is_atom) {
             /* Construct each half size neighbor */
-            (void) t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class, iface,
-                                                          num_face_children, nullptr);
+            neighbor_tree = t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class,
+                                                                   iface, num_face_children, nullptr);
           }
           else {
-            /* Construct the owners at the face of the neighbor element */
-            t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
-            /* Iterate over all owners and if any is not the current process,
-            * add this element as remote */
-            for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
-              owner = *(int *) sc_array_index (&owners, iowner);
+            int dummy_neigh_face;
+            neighbor_tree = t8_forest_element_face_neighbor (forest, itree, elem, half_neighbors[0], neigh_class, iface,
+                                                             &dummy_neigh_face);
+          }
+          if (neighbor_tree >= 0) {
+            /* Find the owner of each neighbor and if it is not the current process, add this element as remote */
+            for (int ichild = 0; ichild < num_face_children; ichild++) {
+              owner = t8_forest_element_find_owner (forest, neighbor_tree, half_neighbors[ichild], neigh_class);
               T8_ASSERT (0 <= owner && owner < forest->mpisize);
               if (owner != forest->mpirank) {
-                /* Add the element as a remote element */
                 t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
               }
             }
-            sc_array_truncate (&owners);
           }
+          scheme->element_destroy (neigh_class, num_face_children, half_neighbors);
+          T8_FREE (half_neighbors);
+        }
+        else {
+          /* Construct the owners at the face of the neighbor element */
+          t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
+          /* Iterate over all owners and if any is not the current process,
+           * add this element as remote */
+          for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
+            owner = *(int *) sc_array_index (&owners, iowner);
+            T8_ASSERT (0 <= owner && owner < forest->mpisize);
+            if (owner != forest->mpirank) {
+              /* Add the element as a remote element */
+              t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
+            }
+          }
+          sc_array_truncate (&owners);
         }
       } /* end face loop */
     }   /* end element loop */
-- 
2.43.0


From fcb7090382c98de869d215977948a6787278b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:50 +0000
Subject: [PATCH 14/70] fix: t8_forest_is_balanced with elements of the maximum
 level

---
 src/t8_forest/t8_forest_balance.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/t8_forest/t8_forest_balance.cxx b/src/t8_forest/t8_forest_balance.cxx
index e4aa236..ddc4a00 100644
--- a/src/t8_forest/t8_forest_balance.cxx
+++ b/src/t8_forest/t8_forest_balance.cxx
@@ -74,11 +74,13 @@ t8_forest_balance_adapt (t8_forest_t forest, t8_forest_t forest_from, const t8_l
    * level in the forest minus 2.
    * Otherwise there cannot exist neighbors of level greater than the element's level plus one.
    * The variable maxlevel_existing is only set if we enter this function from t8_forest_balance.
-   * If we enter from the check function is_balanced, then it may not be set.
+   * If we enter from the check function is_balanced, then it may not be set and
+   * we use the maximum possible level instead.
    */
+  const int maxlevel
+    = forest_from->maxlevel_existing > 0 ? forest_from->maxlevel_existing : t8_forest_get_maxlevel (forest_from);
 
-  if (forest_from->maxlevel_existing <= 0
-      || scheme->element_get_level (tree_class, element) <= forest_from->maxlevel_existing - 2) {
+  if (scheme->element_get_level (tree_class, element) <= maxlevel - 2) {
 
     pdone = (int *) forest->t8code_data;
 
-- 
2.43.0


From 78ad2df9823732848233b536ed447aed6afc8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:41 +0000
Subject: [PATCH 15/70] fix: leaf face neighbors in the local and the ghost
 tree were reported twice

The neighbors found in the local part of a tree stayed in the collecting
vectors and were appended a second time together with those of the ghost part.
---
 src/t8_forest/t8_forest.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 8b96212..ee9d08e 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1812,8 +1812,6 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     }
   }
 
-  struct t8_lfn_user_data user_data;
-
   // Now we iterate over the leaf arrays of the neighbor tree
   // or neighbor ghost tree and find all leaf face neighbors of the element.
   *num_neighbors = 0;
@@ -1833,6 +1831,8 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     auto &tree_leaves = leaf_array->first;
     const bool leaf_array_is_ghost = leaf_array->second;
     T8_ASSERT (tree_leaves != NULL);
+    // Collects the neighbors found in this leaf array only.
+    struct t8_lfn_user_data user_data;
     const t8_element_t *first_descendant;
     /*
     * Compute the index of the first leaf in tree_leaves that is an ancestor or descendant of
-- 
2.43.0


From 0867b78ee0ec0dbe9f4125732acd8c26cd935338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 16/70] fix: linear geometry of a vertex tree with more than
 one point

All points of a vertex tree map to its single vertex; the code read past the vertex.
---
 src/t8_geometry/t8_geometry_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 23235bb..43063a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -114,7 +114,7 @@ t8_geom_compute_linear_geometry (t8_eclass_t tree_class, const double *tree_vert
     for (i_coord = 0; i_coord < num_coords; i_coord++) {
       const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
       for (i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; i_dim++) {
-        out_coords[offset_domain_dim + i_dim] = tree_vertices[offset_domain_dim + i_dim];
+        out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
       }
     }
     break;
-- 
2.43.0


From 3e920cd9f38370e2b56aa4c14a1be3ec66aea324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 17/70] fix: axis aligned geometry of lines and quads outside
 the xy plane

The space dimension indexed the reference coordinates of the tree dimension, so that
lines along y or z and quads in the xz or yz plane were evaluated with coordinates of
other points.
---
 src/t8_geometry/t8_geometry_helpers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 43063a6..9b13c73 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -227,9 +227,14 @@ t8_geom_compute_linear_axis_aligned_geometry (const t8_eclass_t tree_class, cons
   for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
     const size_t offset_tree_dim = i_coord * dimension;
     const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
+    /* The reference coordinates belong to the dimensions in which the tree extends, in order. */
+    int i_ref = 0;
     for (int i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; ++i_dim) {
       out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
-      out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_dim] * vector[i_dim];
+      if (i_ref < dimension && (dimension == T8_ECLASS_MAX_DIM || fabs (vector[i_dim]) > SC_EPS)) {
+        out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_ref] * vector[i_dim];
+        ++i_ref;
+      }
     }
   }
 }
-- 
2.43.0


From 3fe3e8845249b07fb8720edb9ef3f145f0db27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 18/70] fix: zero geometry wrote behind the output array and
 left the output unset

---
 .../t8_geometry_implementations/t8_geometry_zero.cxx        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 0c40d27..8823357 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -41,9 +41,9 @@ t8_geometry_zero::t8_geom_evaluate ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_u
 {
   /* Set the out_coords to 0 */
   for (size_t coord = 0; coord < num_coords; coord++) {
-    out_coords[0 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[1 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[2 + num_coords * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[0 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[1 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[2 + coord * T8_ECLASS_MAX_DIM] = 0;
   }
 }
 
-- 
2.43.0


From 41ecabe84d08f155e8aa6e42bb4ba6dda9120dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 19/70] fix: zero geometry used an unset tree class in its
 jacobian

---
 .../t8_geometry_implementations/t8_geometry_zero.cxx         | 5 +++--
 .../t8_geometry_implementations/t8_geometry_zero.hxx         | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 8823357..416871d 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -58,9 +58,10 @@ t8_geometry_zero::t8_geom_evaluate_jacobian ([[maybe_unused]] t8_cmesh_t cmesh,
 }
 
 inline void
-t8_geometry_zero::t8_geom_load_tree_data ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_unused]] t8_gloidx_t gtreeid)
+t8_geometry_zero::t8_geom_load_tree_data (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
 {
-  /* Do nothing. */
+  /* The class of the tree determines the size of the jacobian. */
+  t8_geometry::t8_geom_load_tree_data (cmesh, gtreeid);
 }
 
 T8_EXTERN_C_BEGIN ();
diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx
index 18d062c..729192e 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx
@@ -123,7 +123,7 @@ struct t8_geometry_zero: public t8_geometry
   /** Update a possible internal data buffer for per tree data.
    * This function is called before the first coordinates in a new tree are
    * evaluated.
-   * In this implementation, we do nothing, since we do not need any tree data.
+   * In this implementation, we only store the tree and its class.
    * \param [in]  cmesh      The cmesh.
    * \param [in]  gtreeid    The global tree.
    */
-- 
2.43.0


From 88610a67c9129a31266ab0055a8a457e4fb758dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 20/70] fix: point inside test of triangles that are parallel
 to the z axis

The determinant of the projection to the xy plane is zero for such triangles, the
resulting NaNs compare false and any point was accepted.
---
 src/t8_geometry/t8_geometry_helpers.c | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 9b13c73..c9f1186 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -628,16 +628,30 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
   /* b = point - p_0 */
   t8_axpyz (p_0, point, b, -1);
 
+  /* Instead of e_3 we use the unit vector along the largest component of the normal of the triangle,
+   * since the determinant vanishes if the triangle is parallel to it. */
+  double normal[3];
+  t8_cross_3D (v, w, normal);
+  int i2 = 2;
+  if (fabs (normal[0]) > fabs (normal[i2])) {
+    i2 = 0;
+  }
+  if (fabs (normal[1]) > fabs (normal[i2])) {
+    i2 = 1;
+  }
+  const int i0 = (i2 + 1) % 3;
+  const int i1 = (i2 + 2) % 3;
+
   /* Let d = det (v w e_3) */
-  const double det_vwe3 = v[0] * w[1] - v[1] * w[0];
+  const double det_vwe3 = v[i0] * w[i1] - v[i1] * w[i0];
 
   /* The system has a solution, we need to compute it and
    * check whether 0 <= x,y and x + y <= 1 */
   /* x = det (b w e_3) / d
    * y = det (v b e_3) / d
    */
-  const double x = (b[0] * w[1] - b[1] * w[0]) / det_vwe3;
-  const double y = (v[0] * b[1] - v[1] * b[0]) / det_vwe3;
+  const double x = (b[i0] * w[i1] - b[i1] * w[i0]) / det_vwe3;
+  const double y = (v[i0] * b[i1] - v[i1] * b[i0]) / det_vwe3;
 
   if (x < -tolerance || y < -tolerance || x + y > 1 + tolerance) {
     /* The solution is not admissible.
@@ -650,11 +664,11 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * is actually p - p_0.
    * Since the system of equations is overrepresented (3 equations, 2 variables)
    * this may actually break.
-   * If it breaks, it will break in the z coordinate of the result.
+   * If it breaks, it will break in the remaining coordinate of the result.
    */
-  const double z = v[2] * x + w[2] * y;
-  /* Must match the last coordinate of b = p - p_0 */
-  if (fabs (z - b[2]) > tolerance) {
+  const double z = v[i2] * x + w[i2] * y;
+  /* Must match the remaining coordinate of b = p - p_0 */
+  if (fabs (z - b[i2]) > tolerance) {
     /* Does not match. Point lies outside. */
     return 0;
   }
-- 
2.43.0


From 15e44aaf89a0dc1ad4bba6a7b00a9dd0de2f89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 21/70] fix: point inside test of lines with round-off in a
 coordinate

The parameter was computed from the first coordinate that differs from zero, even if the
difference is only a round-off error.
---
 src/t8_geometry/t8_geometry_helpers.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index c9f1186..c82b8cd 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -569,24 +569,24 @@ t8_line_point_inside (const double *p_0, const double *vec, const double *point,
   /* b = p - p_0 */
   t8_axpyz (p_0, point, b, -1);
   double x = 0; /* Initialized to prevent compiler warning. */
-  int i;
+  int i = 0;
   /* So x is the solution to
   * vec * x = b.
   * We can compute it as
   * x = b[i] / vec[i]
-  * if any vec[i] is not 0.
+  * if any vec[i] is not 0. We use the largest entry, since others may be round-off errors.
   *
   * Otherwise the line is degenerated (which should not happen).
   */
-  for (i = 0; i < 3; ++i) {
-    if (vec[i] != 0) {
-      x = b[i] / vec[i];
-      break; /* found a non-zero coordinate. We can stop now. */
+  for (int j = 1; j < 3; ++j) {
+    if (fabs (vec[j]) > fabs (vec[i])) {
+      i = j;
     }
   }
 
-  /* If i == 3 here, then vec = 0 and hence the line is degenerated. */
-  SC_CHECK_ABORT (i < 3, "Degenerated line element. Both endpoints are the same.");
+  /* If vec[i] == 0 here, then vec = 0 and hence the line is degenerated. */
+  SC_CHECK_ABORT (vec[i] != 0, "Degenerated line element. Both endpoints are the same.");
+  x = b[i] / vec[i];
 
   if (x < -tolerance || x > 1 + tolerance) {
     /* x is not an admissible solution. */
-- 
2.43.0


From 695aaeb72d5a68a75276344e5b6bbe62a35bbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:08 +0000
Subject: [PATCH 22/70] fix: geometry handler used tree data of another cmesh

Derived cmeshes share the geometry handler of their source, while the handler only compared
the tree id to decide whether its cached tree data is current. Evaluating the same tree in
another cmesh, or after the source was destroyed, used the vertices of the wrong or of a
freed tree.
---
 src/t8_cmesh/t8_cmesh.cxx               | 2 ++
 src/t8_geometry/t8_geometry_handler.cxx | 3 ++-
 src/t8_geometry/t8_geometry_handler.hxx | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 39faf16..5b166d7 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1231,6 +1231,8 @@ t8_cmesh_reset (t8_cmesh_t *pcmesh)
   }
 
   if (cmesh->geometry_handler != nullptr) {
+    /* The handler may be shared with other cmeshes. It must not use the tree data of this cmesh anymore. */
+    cmesh->geometry_handler->deactivate_tree ();
     cmesh->geometry_handler->unref ();
     cmesh->geometry_handler = nullptr;
   }
diff --git a/src/t8_geometry/t8_geometry_handler.cxx b/src/t8_geometry/t8_geometry_handler.cxx
index 8c0c81c..e9d0afa 100644
--- a/src/t8_geometry/t8_geometry_handler.cxx
+++ b/src/t8_geometry/t8_geometry_handler.cxx
@@ -52,11 +52,12 @@ t8_geometry_handler::update_tree (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
   SC_CHECK_ABORTF (num_geoms > 0,
                    "The geometry of the tree could not be loaded, because no geometries were registered.");
   T8_ASSERT (active_geometry != nullptr);
-  if (active_tree != gtreeid) {
+  if (active_tree != gtreeid || active_cmesh != cmesh) {
     /* This tree is not the active tree. We need to update the
      * active tree, its geometry and its data. */
     /* Set the new tree as active. */
     active_tree = gtreeid;
+    active_cmesh = cmesh;
     if (num_geoms > 1) {
       /* Find and load the geometry of that tree.
        * Only necessary if we have more than one geometry. */
diff --git a/src/t8_geometry/t8_geometry_handler.hxx b/src/t8_geometry/t8_geometry_handler.hxx
index 23b8363..db321c4 100644
--- a/src/t8_geometry/t8_geometry_handler.hxx
+++ b/src/t8_geometry/t8_geometry_handler.hxx
@@ -150,6 +150,7 @@ struct t8_geometry_handler
   deactivate_tree ()
   {
     active_tree = -1;
+    active_cmesh = nullptr;
   }
 
   /**
@@ -335,6 +336,8 @@ struct t8_geometry_handler
   t8_geometry *active_geometry = nullptr;
   /** The global tree id of the last tree for which geometry was used. */
   t8_gloidx_t active_tree = -1;
+  /** The cmesh of the active tree. Derived cmeshes share one handler, but not the tree data. */
+  t8_cmesh_t active_cmesh = nullptr;
   /** The reference count of the geometry handler. TODO: Replace by shared_ptr when cmesh becomes a class. */
   t8_refcount_t rc;
 };
-- 
2.43.0


From 5fcd9399120757058e0525a05ba74ba2e89177d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 23/70] fix: orientation of the periodic faces of the triangle
 and prism hypercube in y direction

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index afe23d4..527add0 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -773,7 +773,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 6);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
         t8_cmesh_set_join (cmesh, 0, 0, 3, 4, 0);
         t8_cmesh_set_join (cmesh, 1, 1, 3, 4, 0);
       }
@@ -791,7 +791,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 3);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
       }
       break;
     case T8_ECLASS_TET:
-- 
2.43.0


From e2092caf3adcf8e65fb5182b7d72f2ae9e7d07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:25 +0000
Subject: [PATCH 24/70] fix: face connections of spherical shells with several
 layers

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 527add0..32f2dba 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -3480,8 +3480,8 @@ t8_cmesh_new_spherical_shell (t8_cmesh_t cmesh, t8_eclass_t eclass, t8_geometry_
       /* Transfer the coordinates from the 2D forest mesh to the cmesh via stacking 3D elements along radial direction. */
       for (int istack = 0; istack < num_layers; istack++) {
         {
-          const double iscale = 1.0 + istack / num_layers;
-          const double oscale = 1.0 + (istack + 1) / num_layers;
+          const double iscale = 1.0 + (double) istack / num_layers;
+          const double oscale = 1.0 + (double) (istack + 1) / num_layers;
 
           double elem_vertices_3d[T8_ECLASS_MAX_CORNERS * 3];
           for (int ivert = 0; ivert < t8_eclass_num_vertices[eclass_2d]; ivert++) {
-- 
2.43.0


From 5265031500614ee88d9ad057fc475c2ee81a8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:25 +0000
Subject: [PATCH 25/70] fix: faces at which the row of cubes is connected

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 32f2dba..a9edce9 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2897,7 +2897,7 @@ t8_cmesh_new_row_of_cubes (t8_cmesh_t cmesh, t8_locidx_t num_trees, const int se
 
   /* Join the hexes. */
   for (t8_locidx_t tree_id = 0; tree_id < num_trees - 1; tree_id++) {
-    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 0, 1, 0);
+    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 1, 0, 0);
   }
 
   /* Check whether the cmesh will be partitioed */
-- 
2.43.0


From b73b1bb54e7c92748ffa9d02f9051915505c8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:42 +0000
Subject: [PATCH 26/70] fix: length of the trees of a padded line hypercube

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index a9edce9..2efcfc3 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1362,11 +1362,8 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
     /* Get the direction of the line */
     double line_dir[3];
     t8_axpyz (boundary, boundary + 3, line_dir, -1.0);
-    /* Get length of one tree */
-    double length;
-    length = t8_norm (line_dir) / (double) polygons_x;
-    //length = t8_dist (boundary, boundary + 3) / length;
-    t8_ax (line_dir, length);
+    /* Scale it to the length of one tree */
+    t8_ax (line_dir, 1.0 / (double) polygons_x);
 
     double vertices[6];
     /* Set first vertex to lower end of line */
-- 
2.43.0


From fbab69e43f4adb23453705befe074ac89f7b346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 27/70] fix: connections of the long brick of pyramids

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 2efcfc3..5088a4b 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2804,19 +2804,19 @@ t8_cmesh_new_long_brick_pyramid (t8_cmesh_t cmesh, sc_MPI_Comm comm, int num_cub
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 2, 2, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 1, 2, 1);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 0, 1, 0);
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 3, 0);
     }
   }
   /* over cube face connection */
   for (current_cube = 0; current_cube < num_cubes - 1; current_cube++) {
     if (current_cube % 2 == 0) {
-      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 2, 0, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 3, 3, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 1, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 1);
     }
   }
   /* vertices */
-- 
2.43.0


From 703f2cce4442aa9d1783fb24175b6063600e3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:24 +0000
Subject: [PATCH 28/70] fix: face connections of the rotated cake of prisms

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 5088a4b..925bbb6 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2104,12 +2104,12 @@ t8_cmesh_new_prism_cake_funny_oriented (t8_cmesh_t cmesh, sc_MPI_Comm comm)
     t8_cmesh_set_tree_class (cmesh, i, T8_ECLASS_PRISM);
   }
 
-  t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 3);
-  t8_cmesh_set_join (cmesh, 1, 2, 1, 2, 0);
-  t8_cmesh_set_join (cmesh, 2, 3, 0, 0, 0);
-  t8_cmesh_set_join (cmesh, 3, 4, 1, 0, 0);
-  t8_cmesh_set_join (cmesh, 4, 5, 2, 2, 0);
-  t8_cmesh_set_join (cmesh, 5, 0, 1, 1, 0);
+  t8_cmesh_set_join (cmesh, 0, 1, 1, 1, 1);
+  t8_cmesh_set_join (cmesh, 1, 2, 0, 0, 1);
+  t8_cmesh_set_join (cmesh, 2, 3, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 3, 4, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 4, 5, 2, 1, 0);
+  t8_cmesh_set_join (cmesh, 5, 0, 0, 2, 1);
 
   for (i = 0; i < 6; i++) {
     t8_cmesh_set_tree_vertices (cmesh, i, vertices + i * 18, 6);
-- 
2.43.0


From 2fd9f8812a3b6c364b937b8b44644a1046fb8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 29/70] fix: tree ids of a padded hypercube of tetrahedra or
 prisms with offset

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 925bbb6..0ce436c 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1195,10 +1195,10 @@ t8_cmesh_set_vertices_3D (t8_cmesh_t cmesh, const t8_eclass_t eclass, const doub
         }
 
         /* Map vertices of current hex on to respective trees inside. */
-        const t8_gloidx_t hex_id = hex_z_id * hexs_y * hexs_x + hex_y_id * hexs_x + hex_x_id + offset;
+        const t8_gloidx_t hex_id = hex_z_id * hexs_y * hexs_x + hex_y_id * hexs_x + hex_x_id;
         if (eclass == T8_ECLASS_HEX) {
           /* No mapping is required. */
-          t8_cmesh_set_tree_vertices (cmesh, hex_id, vertices, use_axis_aligned_geom ? 2 : 8);
+          t8_cmesh_set_tree_vertices (cmesh, hex_id + offset, vertices, use_axis_aligned_geom ? 2 : 8);
         }
         else if (eclass == T8_ECLASS_TET) {
           const t8_gloidx_t tree_id_0 = hex_id * 6 + offset;
@@ -1484,7 +1484,7 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
           t8_locidx_t tree_id_0 = poly_id * 6 + 5;
           t8_locidx_t tree_id_1
             = poly_z_id == polygons_z - 1 ? base_id * 6 + 1 : (poly_id + polygons_y * polygons_x) * 6 + 1;
-          t8_cmesh_set_join (cmesh, tree_id_0, tree_id_1, 0, 3, 2);
+          t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 2);
           tree_id_0 = poly_id * 6 + 4;
           tree_id_1 = poly_z_id == polygons_z - 1 ? base_id * 6 + 2 : (poly_id + polygons_y * polygons_x) * 6 + 2;
           t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 0);
-- 
2.43.0


From f32cacfe77f61f53dc167f6dd67a5a937ea155ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 30/70] fix: disjoint bricks with processes without trees

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 0ce436c..d56fef6 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1521,16 +1521,8 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
       /* Set the partition (with offsets) */
       t8_cmesh_set_partition_range (cmesh, 3, first_tree, last_tree);
 
-#if T8_ENABLE_DEBUG
-      t8_gloidx_t num_global_trees;
-      /* The global number of trees is the sum over all numbers of trees in conn on each process */
-      int mpiret = sc_MPI_Allreduce (&num_local_trees, &num_global_trees, 1, T8_MPI_GLOIDX, sc_MPI_SUM, comm);
-      SC_CHECK_MPI (mpiret);
-
-      t8_debugf ("Generating partitioned cmesh from connectivity\n"
-                 "Has %li global and %li local trees.\n",
-                 num_global_trees, num_local_trees);
-#endif
+      /* No communication here, since processes without trees do not call this function. */
+      t8_debugf ("Generating partitioned cmesh with %li local trees.\n", static_cast<long> (num_local_trees));
     }
   }
 
@@ -1685,12 +1677,10 @@ t8_cmesh_new_disjoint_bricks (t8_cmesh_t cmesh, t8_gloidx_t num_x, t8_gloidx_t n
     }
   }
   else {
-    num_x = num_y = num_z = 0;
-    num_trees = 0;
-    offset = 0;
-
-    /* Create empty cmesh. */
+    /* The local part of the partitioned cmesh is empty. */
     t8_cmesh_register_geometry<t8_geometry_linear> (cmesh);
+    t8_cmesh_set_dimension (cmesh, dim);
+    t8_cmesh_set_partition_range (cmesh, 3, offset, offset - 1);
     t8_cmesh_commit (cmesh, comm);
   }
 }
-- 
2.43.0


From 33e9cda696d6a7c09f960802f6cd2f31b265da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 31/70] fix: stretched reference coordinates of elements

---
 src/t8_forest/t8_forest.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index ee9d08e..3c0101c 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -438,15 +438,16 @@ t8_forest_element_from_ref_coords_ext (t8_forest_t forest, t8_locidx_t ltreeid,
     const t8_geometry_type_t geom_type = t8_geometry_get_type (cmesh, gtreeid);
     T8_ASSERT (geom_type == T8_GEOMETRY_TYPE_LINEAR || geom_type == T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED);
 #endif /* T8_ENABLE_DEBUG */
-    const int tree_dim = t8_eclass_to_dimension[tree_class];
-    double stretched_ref_coords[T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM];
+    /* The reference coordinates of a point always consist of T8_ECLASS_MAX_DIM entries. */
+    double *stretched_ref_coords = T8_ALLOC_ZERO (double, T8_ECLASS_MAX_DIM *num_coords);
     for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
       for (int dim = 0; dim < tree_dim; ++dim) {
-        stretched_ref_coords[i_coord * tree_dim + dim]
-          = 0.5 + ((ref_coords[i_coord * tree_dim + dim] - 0.5) * stretch_factors[dim]);
+        stretched_ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim]
+          = 0.5 + ((ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim] - 0.5) * stretch_factors[dim]);
       }
     }
     scheme->element_get_reference_coords (tree_class, element, stretched_ref_coords, num_coords, tree_ref_coords);
+    T8_FREE (stretched_ref_coords);
   }
   else {
     scheme->element_get_reference_coords (tree_class, element, ref_coords, num_coords, tree_ref_coords);
-- 
2.43.0


From a3a3b133da1b45b0ba5b6936d07d4c5c9b01ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:37 +0000
Subject: [PATCH 32/70] fix: geometry hash of a tree of a cmesh with one
 geometry that is not set per tree

---
 src/t8_cmesh/t8_cmesh_geometry.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_geometry.cxx b/src/t8_cmesh/t8_cmesh_geometry.cxx
index 72cc2d5..38ee032 100644
--- a/src/t8_cmesh/t8_cmesh_geometry.cxx
+++ b/src/t8_cmesh/t8_cmesh_geometry.cxx
@@ -102,8 +102,7 @@ t8_cmesh_get_tree_geom_hash (const t8_cmesh_t cmesh, const t8_gloidx_t gtreeid)
     /* Look up the hash of the geometry in the attributes. */
     const t8_geometry_hash *geom_hash = (const t8_geometry_hash *) t8_cmesh_get_attribute (
       cmesh, t8_get_package_id (), T8_CMESH_GEOMETRY_ATTRIBUTE_KEY, ltreeid);
-    T8_ASSERT (geom_hash != NULL);
-    T8_ASSERT (*geom_hash == geom->t8_geom_get_hash ());
+    T8_ASSERT (geom_hash == NULL || *geom_hash == geom->t8_geom_get_hash ());
 #endif /* T8_ENABLE_DEBUG */
     return geom->t8_geom_get_hash ();
   }
-- 
2.43.0


From 1f08fcc3e981985f50bc29bdf9cee68c181ac16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:37 +0000
Subject: [PATCH 33/70] fix: broadcast of a cmesh with profiling enabled

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 5b166d7..93316f3 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -766,7 +766,7 @@ t8_cmesh_bcast (const t8_cmesh_t cmesh_in, const int root, sc_MPI_Comm comm)
     cmesh_out->num_ghosts = 0;
     T8_ASSERT (cmesh_out->set_partition == 0);
     if (meta_info.cmesh.profile != nullptr) {
-      t8_cmesh_set_profiling (cmesh_in, 1);
+      t8_cmesh_set_profiling (cmesh_out, 1);
     }
     for (iclass = 0; iclass < T8_ECLASS_COUNT; iclass++) {
       cmesh_out->num_trees_per_eclass[iclass] = meta_info.num_trees_per_eclass[iclass];
-- 
2.43.0


From ed6a55ce341b9b1c3b603e6c888992538133a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:37 +0000
Subject: [PATCH 34/70] fix: disabling the profiling of a cmesh left a dangling
 pointer

---
 src/t8_cmesh/t8_cmesh.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 93316f3..bd7b987 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -611,6 +611,7 @@ t8_cmesh_set_profiling (t8_cmesh_t cmesh, const int set_profiling)
     /* Free any profile that is already set */
     if (cmesh->profile != nullptr) {
       T8_FREE (cmesh->profile);
+      cmesh->profile = nullptr;
     }
   }
 }
-- 
2.43.0


From 2ea17ba1f66778aa99e44447627ab573670645df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 35/70] fix: t8_cmesh_set_partition_range with -1 keeps the
 face knowledge

---
 src/t8_cmesh/t8_cmesh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index bd7b987..096d5a0 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -294,7 +294,9 @@ t8_cmesh_set_partition_range (t8_cmesh_t cmesh, const int set_face_knowledge, co
 
   SC_CHECK_ABORT (set_face_knowledge == -1 || set_face_knowledge == 3,
                   "Face knowledge other than three is not implemented yet.");
-  cmesh->face_knowledge = set_face_knowledge;
+  if (set_face_knowledge != -1) {
+    cmesh->face_knowledge = set_face_knowledge;
+  }
   if (first_local_tree < 0) {
     /* the first tree is shared */
     cmesh->first_tree = -first_local_tree - 1;
-- 
2.43.0


From 40c96a14cfd50cd4091d38bec785b99d0acc998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 36/70] fix: broadcast of an uncommitted cmesh from a root
 other than process 0

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index ca7571d..8fa0a63 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -309,17 +309,17 @@ t8_stash_bcast (const t8_stash_t stash, const int root, sc_MPI_Comm comm, const
   }
   if (elem_counts[0] > 0) {
     mpiret = sc_MPI_Bcast (stash->attributes.array, elem_counts[0] * sizeof (t8_stash_attribute_struct_t), sc_MPI_BYTE,
-                           0, comm);
+                           root, comm);
     SC_CHECK_MPI (mpiret);
     t8_stash_bcast_attributes (&stash->attributes, root, comm);
   }
   if (elem_counts[1] > 0) {
     mpiret
-      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, 0, comm);
+      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, root, comm);
     SC_CHECK_MPI (mpiret);
   }
   if (elem_counts[2] > 0) {
-    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, 0,
+    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, root,
                            comm);
     SC_CHECK_MPI (mpiret);
   }
-- 
2.43.0


From d633f3cefb3b0745b1819b5b4af35df287d1a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 37/70] fix: memory of broadcast cmesh attributes that persist
 on the root

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 8fa0a63..7f46662 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -284,6 +284,7 @@ t8_stash_bcast_attributes (sc_array_t *attributes, const int root, sc_MPI_Comm c
     for (iatt = 0; iatt < num_atts; iatt++) {
       att = (t8_stash_attribute_struct_t *) sc_array_index (attributes, iatt);
       att->attr_data = T8_ALLOC (char, att->attr_size);
+      att->is_owned = 1;
       memcpy (att->attr_data, buffer + copied_bytes, att->attr_size);
       copied_bytes += att->attr_size;
     }
-- 
2.43.0


From 9ce8c1f87067380b1d695cf0acf03ee616762c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 38/70] fix: setting a cmesh attribute again overwrites the
 previous one

---
 .../t8_cmesh_internal/t8_cmesh_commit.cxx     |  6 ++---
 .../t8_cmesh_internal/t8_cmesh_stash.c        | 27 ++++++++++++++++++-
 .../t8_cmesh_internal/t8_cmesh_stash.h        |  1 +
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index 7d0f789..ecc108f 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -157,6 +157,9 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
       cmesh->num_trees_per_eclass[entry->eclass]++;
       cmesh->num_local_trees_per_eclass[entry->eclass]++;
     }
+    /* TODO: currently the attributes array still has to be sorted,
+     *       find a way around it */
+    t8_stash_attribute_sort (cmesh->stash);
     for (si = 0; si < stash->attributes.elem_count; si++) {
       attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
       /* attribute->id is a gloidx that is casted to a locidx here.
@@ -172,9 +175,6 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
 
     /* Add attributes */
-    /* TODO: currently the attributes array still has to be sorted,
-     *       find a way around it */
-    t8_stash_attribute_sort (cmesh->stash);
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
     cmesh->first_tree = 0;
     t8_cmesh_add_attributes (cmesh, nullptr);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 7f46662..a783090 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -172,6 +172,7 @@ t8_stash_add_attribute (const t8_stash_t stash, const t8_gloidx_t id, const int
   sattr->id = id;
   sattr->is_owned = !copy ? 0 : 1;
   sattr->key = key;
+  sattr->order = stash->attributes.elem_count - 1;
   sattr->package_id = package_id;
   sattr->attr_data = !copy ? attr : T8_ALLOC (char, size);
   if (copy) {
@@ -227,7 +228,10 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 
   if (A1->id == A2->id) {
     if (A1->package_id == A2->package_id) {
-      return A1->key < A2->key ? -1 : A1->key > A2->key;
+      if (A1->key == A2->key) {
+        return A1->order < A2->order ? -1 : A1->order > A2->order;
+      }
+      return A1->key < A2->key ? -1 : 1;
     }
     return A1->package_id < A2->package_id ? -1 : 1;
   }
@@ -240,7 +244,28 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 void
 t8_stash_attribute_sort (const t8_stash_t stash)
 {
+  size_t iattr, num_kept = 0;
+
   sc_array_sort (&stash->attributes, t8_stash_attribute_compare);
+  /* If an attribute was set several times, only the last one is kept. */
+  for (iattr = 0; iattr < stash->attributes.elem_count; iattr++) {
+    t8_stash_attribute_struct_t *attr = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, iattr);
+    if (num_kept > 0) {
+      t8_stash_attribute_struct_t *prev
+        = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, num_kept - 1);
+      if (prev->id == attr->id && prev->package_id == attr->package_id && prev->key == attr->key) {
+        if (prev->is_owned) {
+          T8_FREE (prev->attr_data);
+        }
+        num_kept--;
+      }
+    }
+    if (num_kept != iattr) {
+      *(t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, num_kept) = *attr;
+    }
+    num_kept++;
+  }
+  sc_array_resize (&stash->attributes, num_kept);
 }
 
 static void
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
index 270a29d..add93dd 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
@@ -70,6 +70,7 @@ typedef struct t8_stash_attribute
   int is_owned;     /**< True if the data was copied, false if the data is still owned by user. */
   int package_id;   /**< The id of the package that set this attribute. */
   int key;          /**< The key used by the package to identify this attribute. */
+  size_t order;     /**< The number of attributes in the stash when this attribute was added. */
 } t8_stash_attribute_struct_t;
 
 /** The stash data structure is used to store information about the cmesh
-- 
2.43.0


From c431528ec3671bb6beacb15205ec86091d084ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:20 +0000
Subject: [PATCH 39/70] fix: attributes of trees that are followed by trees
 without attributes only

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 87f88d1..59839ec 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -741,9 +741,14 @@ t8_cmesh_trees_add_attribute (const t8_cmesh_trees_t trees, const int proc, cons
   attr_info->key = attr->key;
   attr_info->package_id = attr->package_id;
   attr_info->attribute_size = attr->attr_size;
+  /* Check whether this is the last attribute of the part. The following trees may have no attributes. */
+  bool is_last_attribute = index == (size_t) tree->num_attributes - 1;
+  for (t8_locidx_t inext = tree_id + 1; is_last_attribute && inext < part->first_tree_id + part->num_trees; ++inext) {
+    is_last_attribute = t8_part_tree_get_tree (part, inext)->num_attributes == 0;
+  }
   /* If we are not yet at the last attribute of the part,
    * get next attribute and set its offset*/
-  if (!(index == (size_t) tree->num_attributes - 1 && part->num_trees == tree_id + 1 - part->first_tree_id)) {
+  if (!is_last_attribute) {
     /* Store offset of current attribute */
     offset = attr_info->attribute_offset;
     attr_info = attr_info + 1;
-- 
2.43.0


From adf554351d4a8a714665ec992632276721691f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:20 +0000
Subject: [PATCH 40/70] fix: attributes of ghosts of a partitioned cmesh when
 other ghosts have none

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index ecc108f..bc6a95f 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -100,7 +100,13 @@ t8_cmesh_add_attributes (const t8_cmesh_t cmesh, sc_hash_t *ghost_ids)
 
   t8_ghost_facejoin_t temp_facejoin = { 0, 0, 0 };
 
+  /* Ghosts without attributes are not inserted below, we count them here. */
   t8_locidx_t ghosts_inserted = 0;
+  for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ++ighost) {
+    if (t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->num_attributes == 0) {
+      ghosts_inserted++;
+    }
+  }
   ltree = -1;
   for (si = 0, sj = 0; si < stash->attributes.elem_count; si++, sj++) {
     attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
-- 
2.43.0


From 44c18bf8a6894be40e873ce86135674db6f2168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:05 +0000
Subject: [PATCH 41/70] fix: t8_cmesh_is_equal compares the keys of attributes

---
 .../t8_cmesh_internal/t8_cmesh_trees.cxx       | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 59839ec..cbf8147 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1228,6 +1228,15 @@ t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a,
     if (attsizea != attsizeb) {
       return 0;
     }
+    for (int iatt = 0; iatt < treea->num_attributes; iatt++) {
+      /* Compare the identifiers and the sizes of the attributes */
+      const t8_attribute_info_struct_t *infoa = T8_TREE_ATTR_INFO (treea, iatt);
+      const t8_attribute_info_struct_t *infob = T8_TREE_ATTR_INFO (treeb, iatt);
+      if (infoa->key != infob->key || infoa->package_id != infob->package_id
+          || infoa->attribute_size != infob->attribute_size) {
+        return 0;
+      }
+    }
     if (attsizea > 0) {
       /* Get pointers to all attributes */
       first_atta = T8_TREE_ATTR_INFO (treea, 0);
@@ -1263,6 +1272,15 @@ t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a,
     if (attsizea != attsizeb) {
       return 0;
     }
+    for (int iatt = 0; iatt < ghosta->num_attributes; iatt++) {
+      /* Compare the identifiers and the sizes of the attributes */
+      const t8_attribute_info_struct_t *infoa = T8_GHOST_ATTR_INFO (ghosta, iatt);
+      const t8_attribute_info_struct_t *infob = T8_GHOST_ATTR_INFO (ghostb, iatt);
+      if (infoa->key != infob->key || infoa->package_id != infob->package_id
+          || infoa->attribute_size != infob->attribute_size) {
+        return 0;
+      }
+    }
     if (attsizea > 0) {
       /* Get pointers to all attributes */
       first_atta = T8_GHOST_ATTR_INFO (ghosta, 0);
-- 
2.43.0


From 4efb0fe89e8d9ed30cc60b6487202b489cfae179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:26 +0000
Subject: [PATCH 42/70] fix: derive a cmesh with a given partition range

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 2e56c4d..bf2481a 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1591,7 +1591,10 @@ t8_cmesh_partition (t8_cmesh_t cmesh, sc_MPI_Comm comm)
   }
   else {
     /* We compute the partition after a given partition table in cmesh->tree_offsets */
-    T8_ASSERT (cmesh->tree_offsets != NULL);
+    if (cmesh->tree_offsets == nullptr) {
+      /* The local range of trees was set with t8_cmesh_set_partition_range, we construct the table from it. */
+      t8_cmesh_gather_treecount_nocommit (cmesh, comm);
+    }
     tree_offsets = t8_shmem_array_get_gloidx_array (cmesh->tree_offsets);
     /* Check whether the offset at mpirank is smaller 0, if so then the
      * first local tree is also the last local tree of the next smaller nonempty process. */
-- 
2.43.0


From 0f659dda36f9cc857c3ed84010ce70386d400e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:54 +0000
Subject: [PATCH 43/70] fix: local ids of ghosts in a copied cmesh

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
index db490a3..3ed807b 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
@@ -87,5 +87,13 @@ t8_cmesh_copy (t8_cmesh_t cmesh, const t8_cmesh_t cmesh_from, sc_MPI_Comm comm)
       t8_cmesh_trees_start_part (cmesh->trees, ipart, first_tree, num_trees, first_ghost, num_ghosts, 0);
       t8_cmesh_trees_copy_part (cmesh->trees, ipart, cmesh_from->trees, ipart);
     }
+    /* Fill the lookup table from the global ids of the ghosts to their local ids */
+    for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ighost++) {
+      t8_trees_glo_lo_hash_t *hash_entry
+        = (t8_trees_glo_lo_hash_t *) sc_mempool_alloc (cmesh->trees->global_local_mempool);
+      hash_entry->global_id = t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->treeid;
+      hash_entry->local_id = cmesh->num_local_trees + ighost;
+      sc_hash_insert_unique (cmesh->trees->ghost_globalid_to_local_id, hash_entry, nullptr);
+    }
   }
 }
-- 
2.43.0


From 7b68a2cb642d3dc9531e76a83a085a30b25517e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:18 +0000
Subject: [PATCH 44/70] fix: attribute offsets of repartitioned trees behind a
 tree without attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index bf2481a..59f1c44 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -762,9 +762,9 @@ t8_cmesh_partition_copy_data (char *send_buffer, t8_cmesh_t cmesh, const t8_cmes
         last_size = attr_info->attribute_size;
       }
       temp_offset_att += tree_copy->num_attributes * sizeof (t8_attribute_info_struct_t);
+      last_num_att = tree_copy->num_attributes;
     }
     temp_offset_tree += sizeof (t8_ctree_struct_t);
-    last_num_att = tree_copy->num_attributes;
   }
 
   /* Copy all ghosts and set their face entries and offsets */
-- 
2.43.0


From b9f221399337f4b1db630531ac090ca739f75f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:15 +0000
Subject: [PATCH 45/70] fix: uniform bounds of empty processes on a partitioned
 coarse mesh

---
 src/t8_cmesh/t8_cmesh.cxx | 61 ++++++++++-----------------------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 096d5a0..ebf78fd 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -20,6 +20,7 @@
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301, USA.
 */
 
+#include <algorithm>
 #include <sc_statistics.h>
 #include <t8_cmesh/t8_cmesh.h>
 #include <t8_cmesh/t8_cmesh_geometry.hxx>
@@ -1792,8 +1793,7 @@ t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_mess
                                    [[maybe_unused]] const t8_gloidx_t global_num_elements, sc_MPI_Comm comm)
 {
   const t8_gloidx_t global_id_of_first_or_last_tree = first_or_last_puretree_of_iproc
-                                                      + t8_cmesh_get_first_treeid (cmesh)
-                                                      + (proc_is_empty ? 0 : first_tree_shared_shift);
+                                                      + t8_cmesh_get_first_treeid (cmesh) + first_tree_shared_shift;
   if (iproc != cmesh->mpirank) {
     const int num_entries = 2;
     /* Allocate a new request */
@@ -2178,52 +2178,22 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
         }
       }
       else {
-        /* Process iproc is empty. */
+        /* Process iproc is empty. We send it the first tree that the next nonempty process does not share,
+         * if we own the first element of the next nonempty process. This element has the same index as the (not
+         * existing) first element of iproc. If this element is not the first of its tree, the tree is shared. */
         send_end_message = false;
-        int next_non_empty_proc = iproc + 1;
-        t8_gloidx_t first_child_next_non_empty = 0;
-        t8_gloidx_t last_child_next_non_empty = 0;
-        /* compute the next non empty process we send to. */
-        do {
-          first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-            (uint32_t) next_non_empty_proc, (uint32_t) cmesh->mpisize, (uint64_t) global_num_elements);
-          last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-            (uint32_t) next_non_empty_proc + 1, (uint32_t) cmesh->mpisize, (uint64_t) global_num_elements);
-          next_non_empty_proc++;
-          /* check if the proc is in our send-range && the proc is empty && we have information about this process. */
-        } while (next_non_empty_proc < send_last && last_child_next_non_empty <= first_child_next_non_empty
-                 && first_child_next_non_empty < first_element_tree[num_pure_local_trees]);
-        // Undo the last iteration's incrementation of next_non_empty_proc
-        next_non_empty_proc--;
-        first_puretree_of_iproc = tree_offsets_partition[next_non_empty_proc - send_first - 1];
-        last_puretree_of_iproc = -1;
-        /* Check if this proc has information about the first_child on the next non empty process.
-          * If not, another process will send the information */
-        send_start_message = first_child_next_non_empty < first_element_tree[num_pure_local_trees];
+        send_start_message = first_element_tree[0] <= first_element_index_of_iproc
+                             && first_element_index_of_iproc < first_element_tree[num_pure_local_trees];
         if (send_start_message) {
-          /* We might have detected a larger range of empty processes. We directly send to this range to avoid a recomputation
-           * of this information. We have to take into account, that in the last iteration of the above do-while-loop
-           * next_non_empty_proc has been added up by one again, so this loop goes [iproc, next_non_empty_proc - 1). */
-          for (t8_gloidx_t iempty_proc = iproc; iempty_proc < next_non_empty_proc; ++iempty_proc) {
-            t8_cmesh_bounds_send_start_or_end (cmesh, send_start_message, proc_is_empty, first_puretree_of_iproc,
-                                               first_tree_shared_shift, iempty_proc, send_requests, send_buffer,
-                                               &current_pos_in_send_buffer, first_element_in_tree_index_of_iproc,
-                                               first_local_tree, first_tree_shared, child_in_tree_begin,
-                                               &expect_start_message, global_num_elements, comm);
-#if T8_ENABLE_DEBUG
-            num_message_sent += (iempty_proc != cmesh->mpirank) ? 1 : 0;
-            num_received_start_messages += (iempty_proc != cmesh->mpirank) ? 0 : 1;
-#endif
-          }
-          /* iproc will be enlarged by the for loop again. So we subtract one to continue at the correct, i.e., the next non-empty, process.  */
-          iproc = next_non_empty_proc - 1;
-          continue;
+          first_puretree_of_iproc
+            = std::lower_bound (first_element_tree.begin (), first_element_tree.end (), first_element_index_of_iproc)
+              - first_element_tree.begin ();
         }
       }
 
       /*
        *
-       *  MPI Communication for non-empty processes starts here
+       *  MPI Communication starts here
        *
        */
 
@@ -2283,12 +2253,11 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
     num_message_recv++;
     num_received_start_messages++;
 #endif
-    if (this_proc_is_empty) {
-      /* For an empty proc the last tree is the first_local_tree - 1.
-       * the first local tree has been sent by the next non-empty proc.  */
-      *last_local_tree = *first_local_tree - 1;
-    }
   } /* End receiving start message */
+  if (this_proc_is_empty) {
+    /* For an empty proc the last tree is the first_local_tree - 1. */
+    *last_local_tree = *first_local_tree - 1;
+  }
   if (expect_end_message) {
     const int recv_from
       = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize - 1, find_bounds_in_offset);
-- 
2.43.0


From e5f7da3ee9a4e662374057e7e7a59cf7547494cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 46/70] fix: rounding error in the process of an element of a
 uniform partition

---
 src/t8_cmesh/t8_cmesh.cxx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index ebf78fd..ffe848b 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1626,8 +1626,19 @@ t8_cmesh_determine_partition (const t8_gloidx_t element_index, const t8_gloidx_t
   else {
     /*Use the mirror_element_index to map the whole range of [first_elem_of_iproc, last_elem_of_iproc) to first_proc*/
     const t8_gloidx_t mirror_element_index = global_num_elements - element_index - 1;
-    const int first_proc_rank
+    int first_proc_rank
       = num_procs - 1 - t8_A_times_B_over_C_intA (num_procs, mirror_element_index, global_num_elements);
+    /* The quotient above is computed in floating point arithmetic and may be off due to rounding errors. */
+    while (t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank, (uint32_t) num_procs,
+                                                  (uint64_t) global_num_elements)
+           > (uint64_t) element_index) {
+      first_proc_rank--;
+    }
+    while (t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank + 1, (uint32_t) num_procs,
+                                                  (uint64_t) global_num_elements)
+           <= (uint64_t) element_index) {
+      first_proc_rank++;
+    }
     const int first_proc_adjusted = first_proc_rank - process_offset;
 #if T8_ENABLE_DEBUG
     T8_ASSERT (0 <= first_proc_rank && first_proc_rank < num_procs);
@@ -1782,7 +1793,8 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
  *
  */
 static void
-t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
+t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message,
+                                   [[maybe_unused]] const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
                                    const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
-- 
2.43.0


From c90a08d174686f89400421a6fe2d4d1ad83e20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 47/70] fix: search for an element in an empty element array

---
 src/t8_forest/t8_forest_private.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_forest/t8_forest_private.cxx b/src/t8_forest/t8_forest_private.cxx
index 49d3367..65f4ecf 100644
--- a/src/t8_forest/t8_forest_private.cxx
+++ b/src/t8_forest/t8_forest_private.cxx
@@ -76,6 +76,10 @@ t8_forest_bin_search_lower (const t8_element_array_t *elements, const t8_lineari
 {
   const t8_scheme *scheme = t8_element_array_get_scheme (elements);
   const t8_eclass_t tree_class = t8_element_array_get_tree_class (elements);
+  if (t8_element_array_get_count (elements) == 0) {
+    /* This array is empty. */
+    return -1;
+  }
   /* At first, we check whether any element has smaller id than the
    * given one. */
   const t8_element_t *query = t8_element_array_index_int (elements, 0);
-- 
2.43.0


From 20bb3b21cab7e5cb0dec0285f83bc896717bff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 48/70] fix: assertion of the subtraction from an element array
 iterator

---
 src/t8_data/t8_element_array_iterator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_data/t8_element_array_iterator.hxx b/src/t8_data/t8_element_array_iterator.hxx
index e792d24..b88cab4 100644
--- a/src/t8_data/t8_element_array_iterator.hxx
+++ b/src/t8_data/t8_element_array_iterator.hxx
@@ -201,7 +201,7 @@ struct t8_element_array_iterator
   operator-= (const difference_type n)
   {
     current_index -= n;
-    T8_ASSERT (current_index < 0);
+    T8_ASSERT (current_index >= 0);
     return *this;
   }
   /* Comparison operators */
-- 
2.43.0


From 90a161da68e59f5e2cd5421cf5dbfb9457e92837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 49/70] fix: receive the probed message of a vector handler

---
 src/t8_data/t8_vector_handler.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_data/t8_vector_handler.hxx b/src/t8_data/t8_vector_handler.hxx
index 5d7b96b..a33d644 100644
--- a/src/t8_data/t8_vector_handler.hxx
+++ b/src/t8_data/t8_vector_handler.hxx
@@ -309,7 +309,8 @@ struct t8_vector_handler: public t8_abstract_vector_handler
     SC_CHECK_MPI (mpiret);
     std::vector<char> buffer (num_bytes);
 
-    mpiret = sc_MPI_Recv (buffer.data (), num_bytes, sc_MPI_PACKED, source, tag, comm, status);
+    /* Receive the message that was probed. With wildcards as source or tag there may be other matching messages. */
+    mpiret = sc_MPI_Recv (buffer.data (), num_bytes, sc_MPI_PACKED, status->MPI_SOURCE, status->MPI_TAG, comm, status);
     SC_CHECK_MPI (mpiret);
     unpack_vector_prefix (buffer.data (), num_bytes, pos, outcount, comm);
     return mpiret;
-- 
2.43.0


From 108a19c8be42ec84e4a95311aa9581f1f37a62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:02 +0000
Subject: [PATCH 50/70] fix: user data of a search object without user data is
 a null pointer

---
 src/t8_forest/t8_forest_search/t8_forest_search.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_search/t8_forest_search.hxx b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
index 2a5c985..97ae1e6 100644
--- a/src/t8_forest/t8_forest_search/t8_forest_search.hxx
+++ b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
@@ -372,7 +372,7 @@ struct t8_search: public t8_search_base
   /**
    * The user data associated with the object.
    */
-  Udata *user_data;
+  Udata *user_data = nullptr;
 
  private:
   /**
@@ -836,7 +836,7 @@ struct t8_partition_search: public t8_partition_search_base
   /**
    * A pointer to the user data associated with the object.
    */
-  Udata *user_data;
+  Udata *user_data = nullptr;
 
  private:
   /**
-- 
2.43.0


From c29d268b4f27bf0b09ee6f913be068eb5016a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:00 +0000
Subject: [PATCH 51/70] fix: join trees by vertices with respect to all
 coordinates

---
 src/t8_cmesh/t8_cmesh_helpers.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_helpers.cxx b/src/t8_cmesh/t8_cmesh_helpers.cxx
index d3ef1bb..6674832 100644
--- a/src/t8_cmesh/t8_cmesh_helpers.cxx
+++ b/src/t8_cmesh/t8_cmesh_helpers.cxx
@@ -51,10 +51,9 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
   for (int itree = 0; itree < ntrees; itree++) {
     const t8_eclass_t eclass = eclasses[itree];
     const int nverts = t8_eclass_num_vertices[eclass];
-    const int edim = t8_eclass_to_dimension[eclass];
 
     for (int ivert = 0; ivert < nverts; ivert++) {
-      for (int icoord = 0; icoord < edim; icoord++) {
+      for (int icoord = 0; icoord < T8_ECLASS_MAX_DIM; icoord++) {
         const double coord
           = vertices[T8_3D_TO_1D (ntrees, T8_ECLASS_MAX_CORNERS, T8_ECLASS_MAX_DIM, itree, ivert, icoord)];
 
-- 
2.43.0


From 06c936ad8e407ff381208f12a2c960b5115a827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:57 +0000
Subject: [PATCH 52/70] fix: join trees whose vertices are equal up to
 round-off

---
 src/t8_cmesh/t8_cmesh_helpers.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_helpers.cxx b/src/t8_cmesh/t8_cmesh_helpers.cxx
index 6674832..d0aa233 100644
--- a/src/t8_cmesh/t8_cmesh_helpers.cxx
+++ b/src/t8_cmesh/t8_cmesh_helpers.cxx
@@ -109,9 +109,11 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
         }
       }
 
-      /* Loop over all pre-registered faces with the same hash. */
-      auto range = faces.equal_range (hash);
-      for (auto it = range.first; it != range.second; ++it) {
+      /* Loop over all pre-registered faces with the same hash. Coordinates that are equal up to round-off
+       * may be in neighboring bins. Hence, each of the summands of the hash may differ by one. */
+      const unsigned long max_hash_diff = nface_verts * T8_ECLASS_MAX_DIM;
+      const auto range_end = faces.upper_bound (hash + max_hash_diff);
+      for (auto it = faces.lower_bound (hash - max_hash_diff); it != range_end; ++it) {
         /* Query potentially neighboring `itree` and `iface`. */
         const int neigh_itree = std::get<0> (it->second);
         const int neigh_iface = std::get<1> (it->second);
@@ -221,7 +223,7 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
 
           break;
         }
-      } /* Loop over faces with identical hash. */
+      } /* Loop over faces with (almost) identical hash. */
 
       /* Register the current pair of `itree` and `iface` with given `hash` in the hash table. */
       faces.insert (std::make_pair (hash, std::make_pair (itree, iface)));
-- 
2.43.0


From 09b3b376fc5478fc3157984d0603b674c2543f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 53/70] fix: unique global vertex ids for msh files whose node
 indices have gaps

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index af46d40..ed016e2 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -34,6 +34,7 @@
 #endif
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h>
+#include <unordered_map>
 #include <unordered_set>
 #include <optional>
 #include <vector>
@@ -1242,6 +1243,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   std::array<t8_msh_file_node, T8_ECLASS_MAX_CORNERS> tree_nodes;
   std::array<double, T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM> tree_vertices;
   t8_gloidx_t global_id_of_node[T8_ECLASS_MAX_CORNERS];
+  std::unordered_map<t8_gloidx_t, t8_gloidx_t> global_node_ids;
 
   T8_ASSERT (fp != NULL);
   /* Search for the line beginning with "$Elements" */
@@ -1382,7 +1384,9 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_vertices[3 * i_node] = tree_nodes[i_node].coordinates[0];
           tree_vertices[3 * i_node + 1] = tree_nodes[i_node].coordinates[1];
           tree_vertices[3 * i_node + 2] = tree_nodes[i_node].coordinates[2];
-          global_id_of_node[i_node] = tree_nodes[i_node].index % vertices.size ();
+          /* The node indices of the file may have gaps, we number the nodes consecutively. */
+          global_id_of_node[i_node]
+            = global_node_ids.try_emplace (tree_nodes[i_node].index, global_node_ids.size ()).first->second;
         }
         t8_cmesh_set_tree_vertices (cmesh, tree_count, tree_vertices.data (), num_nodes);
         t8_cmesh_set_global_vertices_of_tree (cmesh, tree_count, global_id_of_node, num_nodes);
-- 
2.43.0


From 63c26a322afdd88c034852f270d76cb95d69f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 54/70] fix: store the parameters of all nodes of a tree of a
 msh file

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index ed016e2..74c7c39 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -581,7 +581,7 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                           entity_dim_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
 
   t8_cmesh_set_attribute (cmesh, tree_count, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY,
-                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
+                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (double), 0);
 }
 
 #if T8_ENABLE_OCC
-- 
2.43.0


From ae3efbed672a04a6b1e6993937f75012fe36051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:49 +0000
Subject: [PATCH 55/70] fix: memory leak if reading the nodes of a msh file
 fails

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 74c7c39..cabaeb1 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -408,7 +408,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
   size_t linen = 1024;
   int retval;
   long num_nodes_in_block, lnum_nodes, lnum_blocks;
-  long *index_buffer;
+  std::vector<long> index_buffer;
 
   T8_ASSERT (fp != NULL);
   /* Go to the beginning of the file */
@@ -465,7 +465,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       return std::nullopt;
     }
     /* Read all node indices in this block */
-    index_buffer = T8_ALLOC (long, num_nodes_in_block);
+    index_buffer.resize (num_nodes_in_block);
     for (ln = 0; ln < num_nodes_in_block; ++ln) {
       retval = t8_cmesh_msh_read_next_line (&line, &linen, fp);
       if (retval < 0) {
@@ -540,7 +540,6 @@ t8_msh_file_4_read_nodes (FILE *fp)
       T8_ASSERT (emplaced.first->index == index_buffer[ln]);
       last_index = index_buffer[ln];
     }
-    T8_FREE (index_buffer);
   }
   free (line);
   t8_debugf ("Successfully read all Nodes.\n");
-- 
2.43.0


From 2fbef9d56396bf7e2741ed20051f634d2e5616c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:49 +0000
Subject: [PATCH 56/70] fix: destroy the cmesh only once if reading the
 elements of a msh file fails

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index cabaeb1..7b6d913 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1256,7 +1256,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Premature end of line while reading num trees.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
   }
@@ -1271,7 +1270,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   num_trees = lnum_trees;
@@ -1289,7 +1287,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (retval < 0) {
       t8_global_errorf ("Premature end of line while reading trees.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     retval = sscanf (line, "%i %li %i %li", &entity_dim, &entity_tag, &ele_type, &num_ele_in_block);
@@ -1298,7 +1295,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Error while reading element block information.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Check if the tree type is supported */
@@ -1306,7 +1302,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
       t8_global_errorf ("tree type %i is not supported by t8code.\n", ele_type);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     eclass = t8_msh_tree_type_to_eclass[ele_type];
@@ -1326,7 +1321,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
       }
@@ -1338,7 +1332,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
@@ -1364,7 +1357,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           /* Get node from the hashtable */
@@ -1406,7 +1398,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (!t8_cmesh_process_tree_geometry (cmesh, eclass, dim, tree_count, cad_geometry_base, linear_geometry_base,
                                                tree_nodes)) {
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
 
@@ -1420,7 +1411,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   free (line);
   if (tree_count == 0) {
     t8_global_errorf ("Warning: No %iD elements found in msh file.\n", dim);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   return std::make_optional<t8_msh_tree_vertex_indices> (vertex_indices);
-- 
2.43.0


From d421e81f9d03b3e5cd77a2ac483531243c2d776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:24 +0000
Subject: [PATCH 57/70] fix: check the nodes of the elements of a msh file,
 allow any white space between them

---
 .../t8_cmesh_io/t8_cmesh_readmshfile.cxx      | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 7b6d913..872cfd7 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1341,19 +1341,16 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
          *
          * We ignore the tree number and read the nodes.
          */
-        line_modify = line;
-        T8_ASSERT (strcmp (line_modify, "\0"));
-        /* move line_modify to the next word in the line */
-        (void) strsep (&line_modify, " ");
+        (void) strtoll (line, &line_modify, 10);
 
         /* At this point line_modify contains only the node indices. */
         const int num_nodes = t8_eclass_num_vertices[eclass];
         std::vector<t8_gloidx_t> node_indices (num_nodes, -1);
         for (int i_node = 0; i_node < num_nodes; i_node++) {
           const int t8_vertex_num = t8_msh_tree_vertex_to_t8_vertex_num[eclass][i_node];
-          T8_ASSERT (strcmp (line_modify, "\0"));
-          retval = sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]);
-          if (retval != 1) {
+          char *line_next;
+          node_indices[t8_vertex_num] = strtoll (line_modify, &line_next, 10);
+          if (line_next == line_modify) {
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
@@ -1361,10 +1358,16 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           }
           /* Get node from the hashtable */
           Node.index = node_indices[t8_vertex_num];
-          tree_nodes[t8_vertex_num] = *vertices.find (Node);
+          const auto found_node = vertices.find (Node);
+          if (found_node == vertices.end ()) {
+            t8_global_errorf ("Node %" T8_GLOIDX_FORMAT " of a tree is not defined.\n", Node.index);
+            free (line);
+            return std::nullopt;
+          }
+          tree_nodes[t8_vertex_num] = *found_node;
 
           /* move line_modify to the next word in the line */
-          (void) strsep (&line_modify, " ");
+          line_modify = line_next;
         }
 
         /* Add the node indices to return vector. */
-- 
2.43.0


From 5e64f81317b0362cba3dffc032071ae5d5c20503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:30 +0000
Subject: [PATCH 58/70] fix: reading an empty msh file fails without reading
 uninitialized memory

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 872cfd7..331e868 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -332,6 +332,7 @@ t8_cmesh_check_version_of_msh_file (FILE *fp)
   int check_version = 0;
 
   T8_ASSERT (fp != NULL);
+  line[0] = '\0';
 
   /* Go to the beginning of the file. */
   fseek (fp, 0, SEEK_SET);
@@ -411,6 +412,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
   std::vector<long> index_buffer;
 
   T8_ASSERT (fp != NULL);
+  line[0] = '\0';
   /* Go to the beginning of the file */
   fseek (fp, 0, SEEK_SET);
   /* Search for the line beginning with "$Nodes" */
@@ -1245,6 +1247,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   std::unordered_map<t8_gloidx_t, t8_gloidx_t> global_node_ids;
 
   T8_ASSERT (fp != NULL);
+  line[0] = '\0';
   /* Search for the line beginning with "$Elements" */
   while (!feof (fp) && strcmp (first_word, "$Elements")) {
     (void) t8_cmesh_msh_read_next_line (&line, &linen, fp);
-- 
2.43.0


From 84b9907e214d843e0c1eafd9efdf880ff9ac277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:05 +0000
Subject: [PATCH 59/70] fix: declare vector data in the pvtu file if there is
 no scalar data

---
 src/t8_vtk/t8_vtk.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/t8_vtk/t8_vtk.c b/src/t8_vtk/t8_vtk.c
index 3a9480b..b1c98e0 100644
--- a/src/t8_vtk/t8_vtk.c
+++ b/src/t8_vtk/t8_vtk.c
@@ -107,8 +107,11 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
       }
     }
 
-    if (strcmp (vtkPointDataString, "")) {
-      fprintf (pvtufile, "    <PPointData Scalars=\"%s\"", vtkPointDataString);
+    if (strcmp (vtkPointDataString, "") || num_scalars < num_data) {
+      fprintf (pvtufile, "    <PPointData");
+      if (strcmp (vtkPointDataString, "")) {
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkPointDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
         fprintf (pvtufile, " Vectors=\"%s\">\n", vtkPointVectorString);
@@ -187,8 +190,11 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
                              data[idata].description);
       }
     }
-    if (strcmp (vtkCellDataString, "")) {
-      fprintf (pvtufile, "    <PCellData Scalars=\"%s\"", vtkCellDataString);
+    if (strcmp (vtkCellDataString, "") || num_scalars < num_data) {
+      fprintf (pvtufile, "    <PCellData");
+      if (strcmp (vtkCellDataString, "")) {
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkCellDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
         fprintf (pvtufile, " Vectors=\"%s\">\n", vtkCellVectorString);
-- 
2.43.0


From 21bf07abf9cac7d69d5dd3f0e76728e04395be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:45 +0000
Subject: [PATCH 60/70] fix: write vector data of a forest of dimension 0
 without dividing by zero

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 35bcb21..8ee16a8 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -688,8 +688,7 @@ t8_forest_vtk_write_cells (t8_forest_t forest, FILE *vtufile, const int write_tr
       T8_ASSERT (data[idata].type == T8_VTK_VECTOR);
       snprintf (component_string, BUFSIZ, "NumberOfComponents=\"3\"");
       freturn = t8_forest_vtk_write_cell_data (forest, vtufile, data[idata].description, T8_VTK_FLOAT_NAME,
-                                               component_string, 8 * forest->dimension,
-                                               t8_forest_vtk_cells_vector_kernel, write_ghosts, data[idata].data);
+                                               component_string, 8 * 3, t8_forest_vtk_cells_vector_kernel, write_ghosts, data[idata].data);
     }
     if (!freturn) {
       goto t8_forest_vtk_cell_failure;
@@ -772,7 +771,7 @@ t8_forest_vtk_write_points (t8_forest_t forest, FILE *vtufile, const int write_g
         }
 
         freturn = t8_forest_vtk_write_cell_data (forest, vtufile, description, T8_VTK_FLOAT_NAME, component_string,
-                                                 8 * forest->dimension, t8_forest_vtk_vertices_vector_kernel,
+                                                 8 * 3, t8_forest_vtk_vertices_vector_kernel,
                                                  write_ghosts, data[idata].data);
       }
       if (!freturn) {
-- 
2.43.0


From f70f07ef1e85bcc23a2a6350e5bf44389ff118e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:22 +0000
Subject: [PATCH 61/70] fix: report failed writes of the vtk file of a cmesh

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 8ee16a8..d0f9637 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -1194,7 +1194,11 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
     fprintf (vtufile, "    </Piece>\n");
     fprintf (vtufile, "  </UnstructuredGrid>\n");
     fprintf (vtufile, "</VTKFile>\n");
-    fclose (vtufile);
+    const int write_error = ferror (vtufile);
+    if (fclose (vtufile) != 0 || write_error) {
+      t8_errorf ("Error when writing file %s.\n", vtufilename);
+      return write_failure;
+    }
   }
   return write_successful;
 }
-- 
2.43.0


From 75d2adefec100f700952df829b489dba30a4a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:56 +0000
Subject: [PATCH 62/70] fix: accept the same percentage on every process in
 t8_cmesh_offset_percent

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 59f1c44..930e024 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1789,10 +1789,12 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
   int mpirank, mpisize, mpiret;
   int created = 0;
 #if T8_ENABLE_DEBUG
-  int total = 0;
+  /* percent must be a percentage and the same on each process. */
+  int max_percent = 0;
   int proc_perc = percent;
-  sc_MPI_Allreduce (&proc_perc, &total, 1, sc_MPI_INT, sc_MPI_SUM, comm);
-  T8_ASSERT (total == 100);
+  sc_MPI_Allreduce (&proc_perc, &max_percent, 1, sc_MPI_INT, sc_MPI_MAX, comm);
+  T8_ASSERT (0 <= percent && percent <= 100);
+  T8_ASSERT (percent == max_percent);
 #endif
 
   T8_ASSERT (t8_cmesh_is_committed (cmesh));
-- 
2.43.0


From 5e5af2c2ccf3adeb5a23baec7078a7a1230c564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:00 +0000
Subject: [PATCH 63/70] fix: adapt callbacks see the user function of the
 forest also if it is partitioned or balanced

---
 src/t8_forest/t8_forest.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 3c0101c..c5bb92f 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3336,6 +3336,8 @@ t8_forest_commit (t8_forest_t forest)
         t8_forest_ref (forest->set_from);
         /* set user data of forest to forest_adapt */
         t8_forest_set_user_data (forest_adapt, t8_forest_get_user_data (forest));
+        /* set user function of forest to forest_adapt */
+        t8_forest_set_user_function (forest_adapt, t8_forest_get_user_function (forest));
         /* Construct an intermediate, adapted forest */
         t8_forest_set_adapt (forest_adapt, forest->set_from, forest->set_adapt_fn, forest->set_adapt_recursive);
         /* Set profiling if enabled */
-- 
2.43.0


From 8f0139f59a23cd8ba3b825c32053e4ee5cc19afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 64/70] fix: t8_forest_element_find_owner_old skips empty
 processes

---
 src/t8_forest/t8_forest.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index c5bb92f..462c630 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -2296,8 +2296,10 @@ t8_forest_element_find_owner_compare (const void *find_owner_data, const void *p
       /* We have to look further left */
       return -1;
     }
-    /* Get the linear id of the first element on the next process. */
-    next_proc_first_desc_id = *(t8_linearidx_t *) t8_shmem_array_index (forest->global_first_desc, (size_t) proc + 1);
+    /* Get the linear id of the first element on the next process that is not empty. */
+    int const next_proc = t8_offset_next_nonempty_rank (proc, forest->mpisize,
+                                                        t8_shmem_array_get_gloidx_array (forest->tree_offsets));
+    next_proc_first_desc_id = *(t8_linearidx_t *) t8_shmem_array_index (forest->global_first_desc, (size_t) next_proc);
     if (next_proc_first_desc_id <= linear_id) {
       /* We have to look further right */
       return 1;
-- 
2.43.0


From e31dd8fdedd95e01faeae354b007e0adf2b19ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 65/70] fix: destroying a mesh handle discards changes that
 were not committed

Settings made with set_adapt, set_partition, set_balance or set_ghost were
leaked if the handle was destroyed without a commit. The adaptation context
stayed registered for the address of the old forest, so that a later mesh
handle could end up calling the callback of the destroyed one.
---
 mesh_handle/mesh.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mesh_handle/mesh.hxx b/mesh_handle/mesh.hxx
index b08fba5..4cdcee4 100644
--- a/mesh_handle/mesh.hxx
+++ b/mesh_handle/mesh.hxx
@@ -124,9 +124,20 @@ class mesh: public TMeshCompetencePack::template apply<mesh<TElementCompetencePa
    * Destructor for a mesh of the handle. 
    * The forest in use will be unreferenced. 
    * Call \ref t8_forest_ref before if you want to keep it alive.
+   * Changes that were set but not committed are discarded.
    */
   ~mesh ()
   {
+    if (m_uncommitted_forest.has_value ()) {
+      if (detail::adapt_registry::get (m_forest) != nullptr) {
+        detail::adapt_registry::unregister_context (m_forest);
+      }
+      if (m_uncommitted_forest.value ()->set_from != NULL) {
+        // The uncommitted forest takes ownership of one reference to the forest it is derived from.
+        t8_forest_ref (m_forest);
+      }
+      t8_forest_unref (&m_uncommitted_forest.value ());
+    }
     t8_forest_unref (&m_forest);
   }
 
-- 
2.43.0


From b9d9ad2af91eda57adaae3571dbe7530e4bbd44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 66/70] fix: face vector contains faces at which an element is
 its own neighbor

With periodic boundaries an element can be its own face neighbor. The face was
then never inserted and its entries in the element face vector stayed -1.
---
 mesh_handle/competences/dg_competences.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 55ad31b..52c4b57 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -231,7 +231,8 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           if (elem.get_level () == neighs[0]->get_level ()) {
             /* --- CONFORMAL or MPI_CONFORMAL --- */
             // Insert only from the side with the smaller handle_id so that each conformal face appears exactly once.
-            if (handle_id < neigh_id) {
+            // Due to periodicity, an element can be its own neighbor. The face is then inserted from the first of the two sides.
+            if (handle_id <= neigh_id) {
               face f;
               f.type = (neigh_rank != LOCAL_RANK) ? face_type::MPI_CONFORMAL : face_type::CONFORMAL;
               f.sides.push_back ({ handle_id, iface, LOCAL_RANK });
-- 
2.43.0


From 438d9b5cd0e889bc4c34e9199b83b28bc2d8f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:47 +0000
Subject: [PATCH 67/70] fix: face vector contains mortar faces of line meshes

A line has a single neighbor at its vertex also if this neighbor is finer, so
the number of neighbors does not tell a large side from the other cases.
---
 mesh_handle/competences/dg_competences.hxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 52c4b57..574ce2a 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -224,7 +224,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           m_faces.push_back (std::move (f));
           m_element_face_vector[handle_id][iface] = face_idx;
         }
-        else if (num_neighs == 1) {
+        else if (num_neighs == 1 && elem.get_level () >= neighs[0]->get_level ()) {
           const int neigh_id = neighs[0]->get_element_handle_id ();
           const int neigh_rank = mesh.get_rank (neigh_id);
 
@@ -250,7 +250,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
               m_element_face_vector[neigh_id][dual_faces[0]] = face_idx;
             }
           }
-          else if (elem.get_level () > neighs[0]->get_level ()) {
+          else {
             /* --- Small side of a MORTAR or MPI_MORTAR --- */
             /* The large (coarser) neighbour owns and inserts this face.
              * We only need to do something here if the neighbor is remote.
@@ -283,10 +283,9 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
             }
             m_element_face_vector[neigh_id][dual_faces[0]] = face_idx;
           }
-          // No other case possible without incomplete trees.
         }
         else {
-          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1) ---  */
+          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1, or one finer neighbor at the vertex of a line) ---  */
           // We are the coarse element; neighs are all small mortars.
           bool any_remote = std::any_of (neighs.begin (), neighs.end (), [&] (const auto* neigh) {
             return mesh.get_rank (neigh->get_element_handle_id ()) != LOCAL_RANK;
-- 
2.43.0


From 76132d63bb1c887e2f0e3e15737c3566c5cb2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:21 +0000
Subject: [PATCH 68/70] fix: t8_orthogonal_tripod for vectors parallel to (1,
 -1, 1)

The second vector was started from a permutation of the first one that is
parallel to it in this case, so that a zero vector was normalized.
---
 src/t8_types/t8_vec.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_types/t8_vec.hxx b/src/t8_types/t8_vec.hxx
index eba279d..103cc7a 100644
--- a/src/t8_types/t8_vec.hxx
+++ b/src/t8_types/t8_vec.hxx
@@ -301,6 +301,14 @@ t8_orthogonal_tripod (const TVecV1 &v1, TVecV2 &v2, TVecV3 &v3)
   v2[1] = v1[2];
   v2[2] = -v1[0];
 
+  /* If v1 is (almost) parallel to (1, -1, 1), then so is v2 and we need another vector to start with. */
+  const double norm_square = t8_dot (v1, v1);
+  if (std::fabs (t8_dot (v1, v2)) > 0.99 * norm_square) {
+    v2[0] = v1[1];
+    v2[1] = -v1[0];
+    v2[2] = 0;
+  }
+
   t8_axpy (v1, v2, -t8_dot (v1, v2) / t8_dot (v1, v1));
   t8_cross_3D (v1, v2, v3);
 
-- 
2.43.0


From 52372d7726592d2af97a03e3d988df1fc638adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:45 +0000
Subject: [PATCH 69/70] fix: edges of a prism that leave a face at its vertices
 (t8_face_to_edge_neighbor)

---
 src/t8_eclass/t8_eclass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_eclass/t8_eclass.h b/src/t8_eclass/t8_eclass.h
index 82f8369..07ca827 100644
--- a/src/t8_eclass/t8_eclass.h
+++ b/src/t8_eclass/t8_eclass.h
@@ -126,7 +126,7 @@ typedef enum t8_eclass {
   { { 2, 1 }, { 2, 0 }, { 1, 0 } },                                                                       /* triangle */  \
   { { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 4, 5, 6, 7 }, { 8, 9, 10, 11 }, { 8, 9, 10, 11 } }, /* hex */       \
   { { 0, 1, 2 }, { 0, 3, 4 }, { 1, 3, 5 }, { 2, 4, 5 } },                                                 /* tet */       \
-  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 6, 7, 8 }, { 6, 7, 8 } },                           /* prism */     \
+  { { 2, 1, 5, 4 }, { 2, 0, 5, 3 }, { 1, 0, 4, 3 }, { 8, 6, 7 }, { 8, 6, 7 } },                           /* prism */     \
   { { -1 } },                                                                                             /* pyramid */   \
 }
 /** Mapping of edge vertex to tree vertex for each eclass. */
-- 
2.43.0


From 2340e0ccff6baab722ccd36f8caf69e61df1bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:51 +0000
Subject: [PATCH 70/70] fix: the send buffers of partition for coarsening were
 released before their sends were complete

---
 .../t8_forest_partition_for_coarsening.cxx         | 14 +++++++++++---
 src/t8_forest/t8_forest_pfc_message.hxx            | 10 +++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition_for_coarsening.cxx b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
index 986d81a..0275525 100644
--- a/src/t8_forest/t8_forest_partition_for_coarsening.cxx
+++ b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
@@ -112,10 +112,12 @@ get_relevant_process_range (const t8_gloidx_t *partition_old, const t8_procidx_t
  * \param[out]  requests  the MPI requests as std::vector
  *                          on input:  empty
  *                          on output: contains the send requests
+ * \param[out]  send_buffers  the send buffers belonging to \a requests, to be freed when the requests are complete
 */
 template <typename MessageType>
 static void
-t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests)
+t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests,
+                               std::vector<char *> &send_buffers)
 {
   // Assertions: The forest must be committed and the request vector empty.
   T8_ASSERT (t8_forest_is_committed (forest_from));
@@ -142,10 +144,12 @@ t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI
 
     // Send the message (and obtain the associated requests).
     sc_MPI_Request request;
-    message.mpi_Isend (forest_from, request);
+    char *send_buffer;
+    message.mpi_Isend (forest_from, request, send_buffer);
 
     // Add to requests array
     requests.push_back (std::move (request));
+    send_buffers.push_back (send_buffer);
   }
 }
 
@@ -383,7 +387,8 @@ t8_forest_pfc_correction_offsets (t8_forest_t forest)
 
     // Send requests to other processes.
     std::vector<sc_MPI_Request> requests;
-    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests);
+    std::vector<char *> send_buffers;
+    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests, send_buffers);
 
     // Receive messages from other processes.
     std::vector<t8_forest_pfc_message> messages;
@@ -392,6 +397,9 @@ t8_forest_pfc_correction_offsets (t8_forest_t forest)
     // Wait for Isend requests.
     const int mpiret = sc_MPI_Waitall (requests.size (), requests.data (), sc_MPI_STATUSES_IGNORE);
     SC_CHECK_MPI (mpiret);
+    for (char *send_buffer : send_buffers) {
+      T8_FREE (send_buffer);
+    }
 
     // Compute process-local corrections to partitioning
     t8_forest_pfc_correct_local_offsets (forest_old, partition_new, messages, corrected_local_offsets);
diff --git a/src/t8_forest/t8_forest_pfc_message.hxx b/src/t8_forest/t8_forest_pfc_message.hxx
index 9041e5d..b4c34bb 100644
--- a/src/t8_forest/t8_forest_pfc_message.hxx
+++ b/src/t8_forest/t8_forest_pfc_message.hxx
@@ -144,15 +144,16 @@ struct t8_forest_pfc_message
   /**
    * Send the message using non-blocking MPI send.
    *
-   * \param[in]   forest  the forest (only used for forest->mpicomm)
-   * \param[out]  request the MPI send request
+   * \param[in]   forest      the forest (only used for forest->mpicomm)
+   * \param[out]  request     the MPI send request
+   * \param[out]  send_buffer the allocated send buffer. Must be freed by the caller, but not before \a request is complete.
   */
   void
-  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request)
+  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request, char *&send_buffer)
   {
     /* Allocate buffer */
     int buffer_size = pack_size ();
-    char *send_buffer = T8_ALLOC (char, buffer_size);
+    send_buffer = T8_ALLOC (char, buffer_size);
 
     /* Pack message to buffer */
     int position = 0;
@@ -162,7 +163,6 @@ struct t8_forest_pfc_message
     const int mpiret
       = sc_MPI_Isend (send_buffer, position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
     SC_CHECK_MPI (mpiret);
-    T8_FREE (send_buffer);
   }
 
   /**
-- 
2.43.0

