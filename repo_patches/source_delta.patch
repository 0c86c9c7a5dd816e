From c986c0460138155a6e4dff786aff249da95e6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 01/10] Add verification hooks guarded by cfg(verif_hooks)

---
 src/lib.rs                                    |  7 +++++++
 src/math/clustering/dbscan/mod.rs             |  3 +++
 src/math/clustering/hdbscan/mod.rs            |  3 +++
 src/math/clustering/hierarchical/algorithm.rs | 14 ++++++++++++++
 src/math/clustering/hierarchical/mod.rs       |  3 +++
 src/math/neighbors/kdtree/mod.rs              |  3 +++
 6 files changed, 33 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b005593..3bd400b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,10 @@ mod color;
 pub mod image;
 mod math;
 pub mod swatch;
+
+/// Verification hook: compiled only with `--cfg verif_hooks`, never in a normal build.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    include!(env!("AUTO_PALETTE_VERIF_HOOKS"));
+}
diff --git a/src/math/clustering/dbscan/mod.rs b/src/math/clustering/dbscan/mod.rs
index 7115f2c..b2b87ed 100644
--- a/src/math/clustering/dbscan/mod.rs
+++ b/src/math/clustering/dbscan/mod.rs
@@ -1,3 +1,6 @@
 pub(crate) mod algorithm;
 mod label;
 pub(crate) mod params;
+
+#[cfg(verif_hooks)]
+pub(crate) use self::label::Label;
diff --git a/src/math/clustering/hdbscan/mod.rs b/src/math/clustering/hdbscan/mod.rs
index 0f565bc..7e814c4 100644
--- a/src/math/clustering/hdbscan/mod.rs
+++ b/src/math/clustering/hdbscan/mod.rs
@@ -1,3 +1,6 @@
 pub(crate) mod algorithm;
 mod core_distance;
 pub(crate) mod params;
+
+#[cfg(verif_hooks)]
+pub(crate) use self::core_distance::CoreDistance;
diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..ec0397a 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -117,6 +117,20 @@ where
     }
 }
 
+#[cfg(verif_hooks)]
+impl<F> HierarchicalClustering<F>
+where
+    F: Float,
+{
+    /// Return the recorded merges as (left, right, weight, size).
+    pub(crate) fn verif_merges(&self) -> Vec<(usize, usize, F, usize)> {
+        self.hierarchy
+            .iter()
+            .map(|node| (node.left, node.right, node.weight, node.size))
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..a0151b0 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,6 @@
 mod algorithm;
 mod node;
 mod union_find;
+
+#[cfg(verif_hooks)]
+pub(crate) use self::{algorithm::HierarchicalClustering, union_find::UnionFind};
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..eb63198 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -12,6 +12,9 @@ use std::ops::Div;
 mod element;
 mod node;
 
+#[cfg(verif_hooks)]
+pub(crate) use self::element::Element as VerifElement;
+
 /// A nearest neighbor search using KDTree.
 #[derive(Debug)]
 pub(crate) struct KDTree<'a, F, P>
-- 
2.43.0


From 1745301e8a58bbcca5b02c56c342a8f03af09035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 02/10] fix: prune the k-nearest search by the k-th best
 distance

The nearest distance found so far was used as the bound, so subtrees
holding the second to k-th nearest points were skipped. Allocating k
slots up front also failed for a k beyond the address space.
---
 src/math/neighbors/kdtree/mod.rs | 34 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index eb63198..8f290e9 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -5,6 +5,7 @@ use crate::math::point::Point;
 use element::Element;
 use node::Node;
 use std::cmp::Ordering::Greater;
+use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 use std::marker::PhantomData;
 use std::ops::Div;
@@ -51,6 +52,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        nearest: &mut BinaryHeap<Reverse<Element<F>>>,
     ) {
         let Some(node) = root else {
             return;
@@ -58,11 +60,12 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        nearest.push(Reverse(Element::new(index, distance)));
+        if nearest.len() > k {
+            nearest.pop();
+        }
         if node.is_leaf() {
             return;
         }
@@ -71,14 +74,18 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        // The distance to the farthest of the k nearest points found so far.
+        let furthest = nearest
+            .peek()
+            .map(|Reverse(e)| e.distance())
+            .unwrap_or(F::max_value());
+        if nearest.len() < k || delta.abs() <= furthest {
+            self.search_recursively(node.left(), query, k, heap, nearest);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, nearest);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         }
     }
 
@@ -150,9 +157,10 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut nearest: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
+        self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
-- 
2.43.0


From 0e25427962ae2fa0a017a0a286cb5403684899aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 03/10] fix: compare splitting-plane distances in the unit of
 the metric

The kd-tree compared the plain axis distance with squared distances and
squared radii, so for values below one it skipped points in range.
---
 src/math/distance/metric.rs      | 10 ++++++++++
 src/math/neighbors/kdtree/mod.rs |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/distance/metric.rs b/src/math/distance/metric.rs
index 6e8778e..3ad630e 100644
--- a/src/math/distance/metric.rs
+++ b/src/math/distance/metric.rs
@@ -22,6 +22,16 @@ impl DistanceMetric {
                 .fold(F::zero(), |total, delta| total + delta.powi(2)),
         }
     }
+
+    /// Compute the distance between two points which differ by the delta on a single axis only.
+    pub fn measure_axis<F: Float>(&self, delta: F) -> F {
+        match *self {
+            DistanceMetric::Euclidean => {
+                DistanceMetric::SquaredEuclidean.measure_axis(delta).sqrt()
+            }
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 8f290e9..441cfad 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -79,7 +79,7 @@ where
             .peek()
             .map(|Reverse(e)| e.distance())
             .unwrap_or(F::max_value());
-        if nearest.len() < k || delta.abs() <= furthest {
+        if nearest.len() < k || self.metric.measure_axis(delta) <= furthest {
             self.search_recursively(node.left(), query, k, heap, nearest);
             self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
@@ -111,7 +111,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.metric.measure_axis(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
-- 
2.43.0


From 2add16038c7ff72d59aa77d9e6c67d81641bb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 04/10] fix: do not reserve k slots in the linear search

A k far above the number of points failed to allocate.
---
 src/math/neighbors/linear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From c89d3469eb1c5f8b462fd57736b615b842502dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 05/10] fix: report DBSCAN centroids in the order of their
 cluster IDs

The centroids came in the random order of the hash map, so they did not
correspond to count_at and differed from run to run.
---
 src/math/clustering/dbscan/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..c913ecd 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -28,8 +28,8 @@ where
 {
     /// Return a set of centroid.
     pub fn centroids(&self) -> Vec<P> {
-        self.centroids
-            .values()
+        (0..self.centroids.len())
+            .filter_map(|cluster_id| self.centroids.get(&cluster_id))
             .map(|centroid| centroid.clone())
             .collect()
     }
-- 
2.43.0


From a556cdd75d2634f64e57b1a0c7f0b9e2d4b53f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 06/10] fix: do not count a point twice when k-means has a
 cluster per point

The cluster started at the point and then added it again, which doubled
the centroid.
---
 src/math/clustering/kmeans/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..667879d 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -97,7 +97,7 @@ where
                 .iter()
                 .enumerate()
                 .map(|(index, data)| {
-                    let mut cluster = Cluster::new(data);
+                    let mut cluster = Cluster::new(&P::zero());
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From e16f0c752cd7ef0556227bf03368de42647e7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 07/10] fix: stop k-means only once every centroid has
 converged

A single cluster that barely moved ended the iteration for all of them.
---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 667879d..3afefa8 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -70,8 +70,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if difference >= tolerance {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From c579a8ec411d9580bb97737c785e09222a5b17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 08/10] fix: mark the selected point in the k-means
 initializers

Inserting shifted the flags of all later points, so points were selected
twice and others were ruled out.
---
 src/math/clustering/kmeans/init.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..427103e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,7 +69,7 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
@@ -93,7 +93,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From 656652b0312a8fbf47c0a6e541d2cc3884c0a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 09/10] fix: saturate sRGB channels outside the gamut

Converting an XYZ color outside the sRGB gamut panicked.
---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..998da5b 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Rgba::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From 58e7231ef4afde3d5a3752180319af76d60fbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 10/10] fix: accept every sample count when computing core
 distances

---
 src/math/clustering/hdbscan/core_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/hdbscan/core_distance.rs b/src/math/clustering/hdbscan/core_distance.rs
index 2b7d83a..db62fa7 100644
--- a/src/math/clustering/hdbscan/core_distance.rs
+++ b/src/math/clustering/hdbscan/core_distance.rs
@@ -22,7 +22,7 @@ where
             };
         }
 
-        let k = dataset.len().min(min_samples + 1);
+        let k = dataset.len().min(min_samples.saturating_add(1));
         let dataset_vec = dataset.to_vec();
         let neighbor_search = KDTree::new(&dataset_vec, metric);
         let mut distances = Vec::with_capacity(dataset.len());
-- 
2.43.0

