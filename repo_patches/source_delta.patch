From c2aa008412c92134a5d99f5de6737b138543022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 01/10] fix: keep all four vertices when the crossed pairing of
 two matched pairs is cheapest

---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 2155aab532ff7f72f73df9df5131066f745077af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 02/10] fix: only move the connection partner in the priority
 queue when the cost decreased

push_increase returns the offered priority when it did not increase, so
<= also matched every more expensive offer.
---
 src/mst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..fefa3ed 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -243,7 +243,7 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             let Reverse(OrderedFloat(old_cost)) = self.cost_queue
             .push_increase(to, Reverse(OrderedFloat(cost)))
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            if cost < old_cost {
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From a4b2e899c9c43b70c8630e7e25e7d7fb0e950442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 03/10] fix: prune with the weight of the spanning tree, not
 twice its weight

---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From 11e1d60106347a2b6aa9d4730e47c36a0143e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 04/10] fix: make the nearest neighbour bound of the remaining
 vertices a lower bound

The minimum over later vertices only can exceed the cost of the edge by which
a tour actually leaves a vertex, so optimal branches were pruned.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..1df6218 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -325,10 +325,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
-            // Also we just connect within
-            if subtour.contains(&j) {
+            // Also we just connect within, or close the tour at the start of the subtour
+            if j == i || (subtour.contains(&j) && j != subtour[0]) {
                 continue;
             }
 
-- 
2.43.0


From 406dd54cf8d5d8d51b2c4aa03b71c107be9737ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 05/10] fix: evaluate the first permutation in the enumerating
 solvers

The initial permutation was never evaluated, so instances with one city (and
two cities with a fixed start) reported an infinite cost.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 1df6218..13499cd 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,7 +51,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation[1..]) {
-- 
2.43.0


From 5d3cfdc9b98ac8373bc1096096736af373806074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 06/10] fix: make the prefix chunks cover the whole space and
 process their first prefix

The exclusive maximum was one too small, the remainder was dropped and the
workers stepped past the minimum of their chunk before using it.
---
 src/solvers/exact.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 13499cd..8b01940 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -563,6 +563,7 @@ pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
 
 /// Splits the `basis`-ary space from 0...0 to (basis-1)..(basis-1) into `n` chunks of `number_digits` digits.
 /// Returns the minimum and maximum (exclusive) values for the `k`-th chunk.
+/// The end of the space, i.e. the maximum of the last chunk, wraps around to 0...0.
 pub fn split_up_b_ary_number_into_n_chunks(
     number_digits: usize,
     basis: usize,
@@ -574,7 +575,12 @@ pub fn split_up_b_ary_number_into_n_chunks(
     let chunk_size = total_values / n;
 
     let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    // the last chunk also gets the remainder; its exclusive end wraps around to 0...0
+    let max_value = if k == n - 1 {
+        total_values
+    } else {
+        min_value + chunk_size
+    };
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
     let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@@ -672,11 +678,13 @@ fn threaded_solver_generic(
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-                    // early return if we have finished our chunk
-                    if next_value == max_digits {
-                        break;
-                    }
+                let mut next_prefix = Some(min_digits.clone());
+                while let Some(next_value) = next_prefix {
+                    // stop if the following prefix does not belong to our chunk anymore
+                    next_prefix = match get_next_value(&mut min_digits, graph_matrix.dim()) {
+                        Some(value) if value != max_digits => Some(value),
+                        _ => None,
+                    };
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -899,11 +907,13 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-        // early return if we have finished our chunk
-        if next_value == max_digits {
-            break;
-        }
+    let mut next_prefix = Some(min_digits.clone());
+    while let Some(next_value) = next_prefix {
+        // stop if the following prefix does not belong to our chunk anymore
+        next_prefix = match get_next_value(&mut min_digits, graph_matrix.dim()) {
+            Some(value) if value != max_digits => Some(value),
+            _ => None,
+        };
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From ccf30170f8f0dc6b9c6e3250b48184d11a697dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 07/10] fix: reject self loops and dangling edges when checking
 for a complete graph

---
 src/preconditions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..a8030c6 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,9 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter()
+        .enumerate()
+        .all(|(i, v)| v.degree() == n - 1 && v.iter().all(|edge| edge.to != i && edge.to < n))
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
-- 
2.43.0


From f1840c126925b72850a9406fa803740a3d44118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 08/10] fix: no infinite self loops in the 1-tree of graphs
 with less than three vertices

---
 src/one_tree.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..1da1362 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -60,9 +60,16 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    // with a single neighbour, a tour uses the edge to it twice
+    if snd_min_edg.to == special_vertex {
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
-    mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
-    mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
+    if fst_min_edg.to != special_vertex {
+        mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
+        mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
+    }
 
     mst
 }
-- 
2.43.0


From b982c9ea0af50c1b74c3bca9ed3cc1c8cacf0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 09/10] fix: solve instances smaller than the prefix length
 sequentially

---
 src/solvers/exact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 8b01940..b6aa99d 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -653,7 +653,8 @@ fn threaded_solver_generic(
     };
 
     // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // too few vertices to split up the work, or to fill a prefix
+    if number_of_threads >= graph_matrix.dim() || graph_matrix.dim() < prefix_length {
         return fifth_improved_solver(graph_matrix);
     }
 
-- 
2.43.0


From 8ed51d0a0e897128742cb6262d8537b0d0aec624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 10/10] fix: keep the vertices in the MST if all of them are
 excluded

The 1-tree of a single vertex indexes into the returned graph.
---
 src/mst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mst.rs b/src/mst.rs
index fefa3ed..2a07416 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -112,8 +112,8 @@ fn prim_with_excluded_node<D: FindMinCostEdge>(
             idx += 1;
         }
         if idx >= num_vertices {
-            // all vertices are excluded --> empty MST
-            return vec![].into();
+            // all vertices are excluded --> MST without any edge
+            return vec![Vec::new(); num_vertices].into();
         }
         idx
     };
-- 
2.43.0

