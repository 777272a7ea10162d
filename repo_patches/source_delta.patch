From 94a8c53192f1f4eaebc0f09d5e677fdc08eade0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 1/5] fix: bulk loading builds all leaves at the same depth

Sibling clusters whose sizes differ by one (e.g. 6 and 7 elements) could end
up at different depths, as each decided on its own whether it has reached the
leaf level. The insertion strategy relies on a uniform depth: inserting into
such a tree panicked with "This is a bug in rstar." or mixed leaves and
parents in one node.
---
 .../bulk_load/bulk_load_sequential.rs         | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..2b9b941 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -12,14 +12,20 @@ use num_traits::Float;
 
 use super::cluster_group_iterator::{calculate_number_of_clusters_on_axis, ClusterGroupIterator};
 
-fn bulk_load_recursive<T, Params>(mut elements: Vec<T>) -> ParentNode<T>
+/// Loads `elements` into a new node.
+///
+/// `max_len` is the number of elements of the largest node on the current level. The number of
+/// clusters only depends on it, such that all branches of the tree reach the leaf level at the
+/// same depth, even though the sizes of sibling nodes can differ slightly.
+fn bulk_load_recursive<T, Params>(mut elements: Vec<T>, max_len: usize) -> ParentNode<T>
 where
     T: RTreeObject,
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
     let m = Params::MAX_SIZE;
-    if elements.len() <= m {
+    debug_assert!(elements.len() <= max_len);
+    if max_len <= m {
         // Reached leaf level. Shrink excess capacity so the in-place collect
         // (which reuses the allocation when size_of::<T> == size_of::<RTreeNode<T>>)
         // doesn't preserve a massively over-sized buffer in the final tree node.
@@ -28,12 +34,17 @@ where
         return ParentNode::new_parent(elements);
     }
     let number_of_clusters_on_axis =
-        calculate_number_of_clusters_on_axis::<T, Params>(elements.len()).max(2);
+        calculate_number_of_clusters_on_axis::<T, Params>(max_len).max(2);
+    let dimensions = <T::Envelope as Envelope>::Point::DIMENSIONS;
+    // The largest cluster is split into slabs of this size once for each axis
+    let max_cluster_len =
+        (0..dimensions).fold(max_len, |len, _| len.div_ceil(number_of_clusters_on_axis));
 
     let iterator = PartitioningTask::<_, Params> {
         number_of_clusters_on_axis,
+        max_cluster_len,
         work_queue: vec![PartitioningState {
-            current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
+            current_axis: dimensions,
             elements,
         }],
         _params: Default::default(),
@@ -54,6 +65,7 @@ struct PartitioningState<T: RTreeObject> {
 struct PartitioningTask<T: RTreeObject, Params: RTreeParams> {
     work_queue: Vec<PartitioningState<T>>,
     number_of_clusters_on_axis: usize,
+    max_cluster_len: usize,
     _params: core::marker::PhantomData<Params>,
 }
 
@@ -68,7 +80,7 @@ impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Param
             } = next;
             if current_axis == 0 {
                 // Partitioning finished successfully on all axis. The remaining cluster forms a new node
-                let data = bulk_load_recursive::<_, Params>(elements);
+                let data = bulk_load_recursive::<_, Params>(elements, self.max_cluster_len);
                 return RTreeNode::Parent(data).into();
             } else {
                 // The cluster group needs to be partitioned further along the next axis
@@ -97,7 +109,8 @@ where
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    bulk_load_recursive::<_, Params>(elements)
+    let len = elements.len();
+    bulk_load_recursive::<_, Params>(elements, len)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1ed59f8d0884374e53607356a26560040ba093d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 2/5] fix: draining by distance from an empty tree overflows
 with integers

The empty root's envelope was passed to the selection function, and computing
its distance panicked (debug) or wrapped (release) with integer coordinates.
SelectionIterator already guards against this.
---
 rstar/src/algorithm/removal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..4187097 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,11 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // The envelope of a node without children is empty. It must not be passed to the
+            // selection function, as e.g. distance calculations could overflow.
+            if !node.children.is_empty()
+                && (*idx > 0 || self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


From 89c476a9ba257708cba427691430ff24b1004a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 3/5] fix: Line::nearest_point divides by zero for integer
 lines of zero length

distance_2 and thus any nearest neighbor query panicked with "attempt to
divide by zero" if a tree contained such a line.
---
 rstar/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rstar/src/primitives/line.rs b/rstar/src/primitives/line.rs
index ea5f078..866aa30 100644
--- a/rstar/src/primitives/line.rs
+++ b/rstar/src/primitives/line.rs
@@ -92,6 +92,10 @@ where
     pub fn nearest_point(&self, query_point: &P) -> P {
         let (p1, p2) = (self.from.clone(), self.to.clone());
         let dir = p2.sub(&p1);
+        if dir.length_2().is_zero() {
+            // A line of zero length has no direction to project onto
+            return p1;
+        }
         let s = self.project_point(query_point);
         if P::Scalar::zero() < s && s < One::one() {
             p1.add(&dir.mul(s))
-- 
2.43.0


From 1a03f31f1c12a0dc4ea4c9bf040c9065a1927737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 4/5] fix: RTree::contains misses elements with an empty
 envelope

Such an element (e.g. an empty geometry) could be inserted, iterated over and
removed, but contains() always returned false for it: an empty envelope does
not intersect its parent's envelope. Use the same selection as remove().
---
 rstar/src/rtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/rtree.rs b/rstar/src/rtree.rs
index cea6a81..ac6d1d4 100644
--- a/rstar/src/rtree.rs
+++ b/rstar/src/rtree.rs
@@ -888,7 +888,11 @@ where
     /// assert!(tree.contains(&[0.0, 2.0]));
     /// ```
     pub fn contains(&self, t: &T) -> bool {
-        self.locate_in_envelope(t.envelope()).any(|e| e == t)
+        // Unlike SelectInEnvelopeFunction, this also finds elements with an empty envelope,
+        // which doesn't intersect any other envelope
+        self.locate_with_selection_function(SelectEqualsFunction::new(t))
+            .next()
+            .is_some()
     }
 
     /// Removes and returns an element of the r-tree equal (`==`) to a given element.
-- 
2.43.0


From 009e2a0e7885e3c70c1c5a38314024999dc3ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 5/5] fix: nearest neighbor search skips the nearest element if
 its distance is rounded up

---
 rstar/src/algorithm/nearest_neighbor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstar/src/algorithm/nearest_neighbor.rs b/rstar/src/algorithm/nearest_neighbor.rs
index 20283f5..cb4d26e 100644
--- a/rstar/src/algorithm/nearest_neighbor.rs
+++ b/rstar/src/algorithm/nearest_neighbor.rs
@@ -287,11 +287,17 @@ where
                 node: RTreeNode::Leaf(ref t),
                 distance,
             } => {
-                return Some((t, distance));
+                if distance <= smallest_min_max {
+                    return Some((t, distance));
+                }
+                break;
             }
         }
     }
-    None
+
+    // The distance of an element can exceed the bound given by an envelope due to rounding. The
+    // nearest neighbor may have been skipped then, search again without skipping anything.
+    NearestNeighborDistance2Iterator::new(node, query_point).next()
 }
 
 pub fn nearest_neighbors_with_distance_2<T>(
-- 
2.43.0

