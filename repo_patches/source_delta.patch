From b86bb987dcb716b30a7e835669aae29b56cebad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 01/15] hooks: expose internal entry points behind --cfg
 auto_palette_verif

---
 src/lib.rs                                    |   3 +
 src/math/clustering/dbscan/algorithm.rs       |  14 ++
 src/math/clustering/hdbscan/mod.rs            |  16 ++
 src/math/clustering/hierarchical/algorithm.rs |  14 ++
 src/math/clustering/hierarchical/mod.rs       |   3 +
 src/math/clustering/kmeans/algorithm.rs       |  14 ++
 src/math/clustering/kmeans/cluster.rs         |  14 ++
 src/verif.rs                                  | 146 ++++++++++++++++++
 8 files changed, 224 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b005593..e982323 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,6 @@ mod color;
 pub mod image;
 mod math;
 pub mod swatch;
+
+#[cfg(auto_palette_verif)]
+pub mod verif;
diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..50f372c 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -172,6 +172,20 @@ where
     }
 }
 
+#[cfg(auto_palette_verif)]
+impl<F, P> DBSCAN<F, P>
+where
+    F: Float,
+    P: Point<F>,
+{
+    /// Return the indices of the points assigned to the given cluster ID.
+    pub(crate) fn verif_members(&self, cluster_id: usize) -> Vec<usize> {
+        self.membership
+            .get(&cluster_id)
+            .map_or_else(Vec::new, |children| children.to_vec())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/math/clustering/hdbscan/mod.rs b/src/math/clustering/hdbscan/mod.rs
index 0f565bc..2e17927 100644
--- a/src/math/clustering/hdbscan/mod.rs
+++ b/src/math/clustering/hdbscan/mod.rs
@@ -1,3 +1,19 @@
 pub(crate) mod algorithm;
 mod core_distance;
 pub(crate) mod params;
+
+#[cfg(auto_palette_verif)]
+pub(crate) fn verif_core_distances<F, P>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: &crate::math::distance::metric::DistanceMetric,
+) -> Vec<F>
+where
+    F: crate::math::number::Float,
+    P: crate::math::point::Point<F>,
+{
+    let core_distance = core_distance::CoreDistance::new(dataset, min_samples, metric);
+    (0..dataset.len())
+        .map(|index| core_distance.distance_at(index))
+        .collect()
+}
diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..9005a8c 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -117,6 +117,20 @@ where
     }
 }
 
+#[cfg(auto_palette_verif)]
+impl<F> HierarchicalClustering<F>
+where
+    F: Float,
+{
+    /// Return the merges of the hierarchy as (left, right, weight, size).
+    pub fn verif_hierarchy(&self) -> Vec<(usize, usize, F, usize)> {
+        self.hierarchy
+            .iter()
+            .map(|node| (node.left, node.right, node.weight, node.size))
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..bf89b19 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,6 @@
 mod algorithm;
 mod node;
 mod union_find;
+
+#[cfg(auto_palette_verif)]
+pub use self::{algorithm::HierarchicalClustering, union_find::UnionFind};
diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..d369b80 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -128,6 +128,20 @@ where
     }
 }
 
+#[cfg(auto_palette_verif)]
+impl<F, P> Kmeans<F, P>
+where
+    F: Float,
+    P: Point<F>,
+{
+    /// Return the indices of the points assigned to the given cluster.
+    pub(crate) fn verif_members(&self, index: usize) -> Vec<usize> {
+        self.clusters
+            .get(index)
+            .map_or_else(Vec::new, |cluster| cluster.verif_members())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/math/clustering/kmeans/cluster.rs b/src/math/clustering/kmeans/cluster.rs
index e255412..e734bc6 100644
--- a/src/math/clustering/kmeans/cluster.rs
+++ b/src/math/clustering/kmeans/cluster.rs
@@ -58,3 +58,17 @@ where
         self.children.clear();
     }
 }
+
+#[cfg(auto_palette_verif)]
+impl<F, P> Cluster<F, P>
+where
+    F: Float,
+    P: Point<F>,
+{
+    /// Return the indices of the points assigned to this cluster in ascending order.
+    pub(crate) fn verif_members(&self) -> Vec<usize> {
+        let mut members: Vec<usize> = self.children.iter().copied().collect();
+        members.sort_unstable();
+        members
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7948f30
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,146 @@
+//! Verification hooks.
+//!
+//! Compiled only with `--cfg auto_palette_verif`. The module re-exports, or wraps in plain data,
+//! internal entry points which are otherwise not reachable from outside of this crate.
+//! Nothing in here takes part in a regular build.
+
+use crate::math::clustering::dbscan::algorithm::DBSCAN;
+use crate::math::clustering::dbscan::params::Params;
+use crate::math::clustering::hdbscan::verif_core_distances;
+use crate::math::clustering::kmeans::algorithm::Kmeans;
+use crate::math::clustering::kmeans::init::Initializer;
+use crate::math::clustering::kmeans::params::KmeansParams;
+use crate::math::clustering::traits::Fit;
+use crate::math::neighbors::kdtree::KDTree;
+use crate::math::neighbors::linear::LinearSearch;
+use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
+use rand::Rng;
+
+pub use crate::color::lab::Lab;
+pub use crate::color::rgba::Rgba;
+pub use crate::color::white_point::{WhitePoint, D65};
+pub use crate::color::xyz::XYZ;
+pub use crate::math::clustering::hierarchical::{HierarchicalClustering, UnionFind};
+pub use crate::math::distance::metric::DistanceMetric;
+pub use crate::math::graph::edge::{Edge, WeightedEdge};
+pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+pub use crate::math::number::{Float, Number};
+pub use crate::math::point::{Point, Point2, Point3, Point5};
+
+/// A query of a neighbor search.
+#[derive(Debug, Clone)]
+pub enum Query<F, P> {
+    Knn(P, usize),
+    Nearest(P),
+    Radius(P, F),
+}
+
+/// Answer all the queries with one KDTree (or one linear search) built for the dataset.
+pub fn neighbor_queries<F: Float, P: Point<F>>(
+    linear: bool,
+    dataset: &Vec<P>,
+    metric: DistanceMetric,
+    queries: &[Query<F, P>],
+) -> Vec<Vec<(usize, F)>> {
+    if linear {
+        answer(&LinearSearch::new(dataset, metric), queries)
+    } else {
+        answer(&KDTree::new(dataset, &metric), queries)
+    }
+}
+
+fn answer<F: Float, P: Point<F>, N: NeighborSearch<F, P>>(
+    search: &N,
+    queries: &[Query<F, P>],
+) -> Vec<Vec<(usize, F)>> {
+    queries
+        .iter()
+        .map(|query| -> Vec<Neighbor<F>> {
+            match query {
+                Query::Knn(point, k) => search.search(point, *k),
+                Query::Nearest(point) => search.search_nearest(point).into_iter().collect(),
+                Query::Radius(point, radius) => search.search_radius(point, *radius),
+            }
+        })
+        .map(|neighbors| neighbors.iter().map(|n| (n.index, n.distance)).collect())
+        .collect()
+}
+
+/// Outcome of a clustering.
+#[derive(Debug, Clone)]
+pub struct Clusters<P> {
+    pub centroids: Vec<P>,
+    pub counts: Vec<usize>,
+    pub members: Vec<Vec<usize>>,
+    pub outliers: Vec<usize>,
+}
+
+/// Run DBSCAN.
+pub fn dbscan<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_points: usize,
+    epsilon: F,
+    metric: DistanceMetric,
+) -> Clusters<P> {
+    let fitted = DBSCAN::fit(dataset, &Params::new(min_points, epsilon, metric));
+    let centroids = fitted.centroids();
+    let n = centroids.len();
+    Clusters {
+        centroids,
+        counts: (0..n).map(|id| fitted.count_at(id)).collect(),
+        members: (0..n).map(|id| fitted.verif_members(id)).collect(),
+        outliers: fitted.outliers(),
+    }
+}
+
+fn initializer<R: Rng + Clone>(plus_plus: bool, rng: R) -> Initializer<R> {
+    if plus_plus {
+        Initializer::KmeansPlusPlus(rng)
+    } else {
+        Initializer::Random(rng)
+    }
+}
+
+/// Choose the initial centroids of k-means.
+pub fn kmeans_initialize<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    k: usize,
+    metric: DistanceMetric,
+    plus_plus: bool,
+    rng: R,
+) -> Vec<P> {
+    initializer(plus_plus, rng).initialize(dataset, k, &metric)
+}
+
+/// Run k-means.
+pub fn kmeans<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    k: usize,
+    metric: DistanceMetric,
+    plus_plus: bool,
+    rng: R,
+    max_iterations: usize,
+    tolerance: F,
+) -> Clusters<P> {
+    let params = KmeansParams::new(k, metric, initializer(plus_plus, rng))
+        .with_max_iterations(max_iterations)
+        .with_tolerance(tolerance);
+    let fitted: Kmeans<F, P> = Kmeans::fit(dataset, &params);
+    let centroids = fitted.centroids();
+    let n = centroids.len();
+    Clusters {
+        centroids,
+        counts: (0..n).map(|id| fitted.count_at(id)).collect(),
+        members: (0..n).map(|id| fitted.verif_members(id)).collect(),
+        outliers: Vec::new(),
+    }
+}
+
+/// Compute the core distances.
+pub fn core_distances<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: DistanceMetric,
+) -> Vec<F> {
+    verif_core_distances(dataset, min_samples, &metric)
+}
-- 
2.43.0


From eee348ffa4b0e0afe66dbe9952657020dec44bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 02/15] fix: prune the k-nearest search of KDTree by the k-th
 nearest distance

---
 src/math/neighbors/kdtree/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..63dd5cb 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -5,6 +5,7 @@ use crate::math::point::Point;
 use element::Element;
 use node::Node;
 use std::cmp::Ordering::Greater;
+use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 use std::marker::PhantomData;
 use std::ops::Div;
@@ -48,6 +49,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        bounds: &mut BinaryHeap<Reverse<Element<F>>>,
     ) {
         let Some(node) = root else {
             return;
@@ -55,11 +57,12 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        bounds.push(Reverse(Element::new(index, distance)));
+        if bounds.len() > k {
+            bounds.pop();
+        }
         if node.is_leaf() {
             return;
         }
@@ -68,14 +71,18 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        // A subtree can be skipped only if it is further than the k-th nearest element found so far.
+        let distance = bounds
+            .peek()
+            .map(|e| e.0.distance())
+            .unwrap_or(F::min_value());
+        if bounds.len() < k || delta.abs() <= distance {
+            self.search_recursively(node.left(), query, k, heap, bounds);
+            self.search_recursively(node.right(), query, k, heap, bounds);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, bounds);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, bounds);
         }
     }
 
@@ -147,7 +154,8 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut bounds: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
+        self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut bounds);
 
         let mut neighbors = Vec::with_capacity(k);
         while let Some(element) = heap.pop() {
-- 
2.43.0


From 46ee0876588ea321a52ce3247543a47859f0f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 03/15] fix: prune the searches of KDTree in the unit of the
 distance metric

---
 src/math/distance/metric.rs      | 8 ++++++++
 src/math/neighbors/kdtree/mod.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/distance/metric.rs b/src/math/distance/metric.rs
index 6e8778e..9708bbc 100644
--- a/src/math/distance/metric.rs
+++ b/src/math/distance/metric.rs
@@ -22,6 +22,14 @@ impl DistanceMetric {
                 .fold(F::zero(), |total, delta| total + delta.powi(2)),
         }
     }
+
+    /// Compute the distance between two points which differ only by the delta along an axis.
+    pub(crate) fn measure_axis<F: Float>(&self, delta: F) -> F {
+        match *self {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 63dd5cb..5ac7c58 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -76,7 +76,7 @@ where
             .peek()
             .map(|e| e.0.distance())
             .unwrap_or(F::min_value());
-        if bounds.len() < k || delta.abs() <= distance {
+        if bounds.len() < k || self.metric.measure_axis(delta) <= distance {
             self.search_recursively(node.left(), query, k, heap, bounds);
             self.search_recursively(node.right(), query, k, heap, bounds);
         } else if delta < F::zero() {
@@ -108,7 +108,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.metric.measure_axis(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
-- 
2.43.0


From a2e7810005a6b8c58df21226011ed8fce645f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 04/15] fix: return the centroids of DBSCAN in the order of the
 cluster ID

---
 src/math/clustering/dbscan/algorithm.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 50f372c..94bb679 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -26,11 +26,17 @@ where
     F: Float,
     P: Point<F>,
 {
-    /// Return a set of centroid.
+    /// Return the centroids in ascending order of the cluster ID.
     pub fn centroids(&self) -> Vec<P> {
-        self.centroids
-            .values()
-            .map(|centroid| centroid.clone())
+        let mut centroids: Vec<(usize, P)> = self
+            .centroids
+            .iter()
+            .map(|(cluster_id, centroid)| (*cluster_id, *centroid))
+            .collect();
+        centroids.sort_unstable_by_key(|(cluster_id, _)| *cluster_id);
+        centroids
+            .into_iter()
+            .map(|(_, centroid)| centroid)
             .collect()
     }
 
-- 
2.43.0


From 31e3ada80bd1bb2f9ad81e9ab236902e2224e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 05/15] fix: clamp a color out of the sRGB gamut instead of
 panicking

---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..998da5b 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Rgba::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From d42ab20cd86cca2e318792d0521b622363010185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 06/15] fix: mark the selected point instead of shifting the
 marks on k-means initialization

---
 src/math/clustering/kmeans/init.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..427103e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,7 +69,7 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
@@ -93,7 +93,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From b8d569189b3c0a79629afc48cd8161459c9b9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 07/15] fix: do not double the centroids of k-means when k is
 not less than the dataset size

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index d369b80..d92274f 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -98,6 +98,7 @@ where
                 .enumerate()
                 .map(|(index, data)| {
                     let mut cluster = Cluster::new(data);
+                    cluster.clear();
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From 975350056c215af845f591b1b0ddaa4031cb28b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 08/15] fix: keep the centroid of a k-means cluster which
 becomes empty

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index d92274f..abb080a 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    *cluster = Cluster::new(&old_centroid);
                     return;
                 }
 
-- 
2.43.0


From d9db0f01621e49633584e3b9ec0ab23666402463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 09/15] fix: regard k-means as converged only if every cluster
 is converged

---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index abb080a..dc2dc4c 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -71,8 +71,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if difference >= tolerance {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From 4806124b5293bbc61bc174d6c605bec24ac4dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 10/15] fix: do not label a point which does not exist when an
 empty dataset is partitioned

---
 src/math/clustering/hierarchical/algorithm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index 9005a8c..d838f35 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -9,6 +9,7 @@ use std::collections::{BinaryHeap, VecDeque};
 
 #[derive(Debug, PartialEq)]
 pub struct HierarchicalClustering<F: Float> {
+    n_data: usize,
     hierarchy: Vec<Node<F>>,
 }
 
@@ -23,6 +24,7 @@ where
     {
         if dataset.is_empty() {
             return Self {
+                n_data: 0,
                 hierarchy: Vec::new(),
             };
         }
@@ -53,13 +55,16 @@ where
                 }
             })
             .collect();
-        Self { hierarchy: nodes }
+        Self {
+            n_data: n_node,
+            hierarchy: nodes,
+        }
     }
 
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         assert!(k <= n_data);
 
         let mut labels = vec![0; n_data];
-- 
2.43.0


From d4554e7df0715ff1e02c063626edebf325ca1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 11/15] fix: never select the same point twice on k-means++
 initialization

---
 src/math/clustering/kmeans/init.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 427103e..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -75,11 +75,8 @@ where
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
-- 
2.43.0


From d5ea0cf77cfc20f3a64d644975e88cf12742fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 12/15] fix: average the positions of a swatch's pixels exactly

The mean of the normalized coordinates times the size of the image is often slightly
below the exact mean because of rounding errors, so a mean that is a whole number was
cut off to the next smaller one (a one colour image of 141 x 141 was at (70, 69)).
---
 src/image.rs                            | 16 ++++++++++++++--
 src/math/clustering/dbscan/algorithm.rs |  7 +++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9b11bce..b5c6aa3 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -9,6 +9,7 @@ use crate::math::distance::metric::DistanceMetric;
 use crate::math::number::{Float, Number};
 use crate::math::point::Point5;
 use crate::swatch::Swatch;
+use num_traits::ToPrimitive;
 
 pub struct ImageData<'a> {
     data: &'a [u8],
@@ -79,10 +80,21 @@ impl<'a> ImageData<'a> {
                 let rgb = Rgba::from(&xyz);
                 let color = (rgb.r, rgb.g, rgb.b);
 
-                let x = (centroid[3] * width_f)
+                // Average the integer coordinates, because the rounding errors of the normalized
+                // ones can turn a whole number into the next smaller one.
+                let members = dbscan.members_at(cluster_id);
+                let (sum_x, sum_y) = members.iter().fold((0, 0), |(sum_x, sum_y), &member| {
+                    let member_u64 = u64::from_usize(member);
+                    (
+                        sum_x + member_u64 % width_u64,
+                        sum_y + member_u64 / width_u64,
+                    )
+                });
+                let size_u64 = u64::from_usize(members.len());
+                let x = (sum_x / size_u64)
                     .to_u32()
                     .expect("Width should be converted to u32");
-                let y = (centroid[4] * height_f)
+                let y = (sum_y / size_u64)
                     .to_u32()
                     .expect("Height should be converted to u32");
                 let position = (x, y);
diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 94bb679..3b0a61e 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -47,6 +47,13 @@ where
             .map_or(0, |children| children.len())
     }
 
+    /// Return the indices of the points assigned to the given cluster ID.
+    pub fn members_at(&self, cluster_id: usize) -> &[usize] {
+        self.membership
+            .get(&cluster_id)
+            .map_or(&[], |children| children.as_slice())
+    }
+
     /// Return a set of indices of outliers.
     pub fn outliers(&self) -> Vec<usize> {
         self.outliers.clone()
-- 
2.43.0


From 1aae407295ac88cfc4a55bad0347549e1405ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 13/15] fix: do not reserve memory for more neighbors than
 there are points

---
 src/math/neighbors/kdtree/mod.rs | 2 +-
 src/math/neighbors/linear.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 5ac7c58..4be133e 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -157,7 +157,7 @@ where
         let mut bounds: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
         self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut bounds);
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From 99d28cee1719bdb49dc7991ba1df1178fb73c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 14/15] fix: do not overflow if the minimum number of samples
 is the largest one

---
 src/math/clustering/hdbscan/core_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/hdbscan/core_distance.rs b/src/math/clustering/hdbscan/core_distance.rs
index 2b7d83a..db62fa7 100644
--- a/src/math/clustering/hdbscan/core_distance.rs
+++ b/src/math/clustering/hdbscan/core_distance.rs
@@ -22,7 +22,7 @@ where
             };
         }
 
-        let k = dataset.len().min(min_samples + 1);
+        let k = dataset.len().min(min_samples.saturating_add(1));
         let dataset_vec = dataset.to_vec();
         let neighbor_search = KDTree::new(&dataset_vec, metric);
         let mut distances = Vec::with_capacity(dataset.len());
-- 
2.43.0


From 99c6b0bb74baef706ae6fd1e200dfdc1e5cd8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 15/15] fix: regard points without any neighbor as outliers of
 DBSCAN even if no points are required

---
 src/math/clustering/dbscan/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 3b0a61e..8649eb0 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -132,7 +132,7 @@ where
             }
 
             let neighbors = nns.search_radius(point, params.epsilon());
-            if neighbors.len() < params.min_points() {
+            if neighbors.is_empty() || neighbors.len() < params.min_points() {
                 labels[index] = Label::Outlier;
                 continue;
             }
-- 
2.43.0

