From e77b60ce08e8ce51470ca894919c88bca52cb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:46 +0000
Subject: [PATCH 01/26] hook: take hash containers from a model crate under
 cfg(graphbench_symex)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e2ef25c..1fc954a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,6 +4,12 @@
 #![allow(unused_imports)]
 #![allow(non_snake_case)]
 #![allow(clippy::needless_doctest_main)]
+#![allow(unexpected_cfgs)]
+
+// Verification hook: with `--cfg graphbench_symex` the hash containers (and files) of the standard
+// library are taken from a model crate which is patched in for `fxhash`.
+#[cfg(graphbench_symex)]
+extern crate fxhash as std;
 
 use std::iter::Map;
 
-- 
2.43.0


From 49244206b4473d57a705d77ffbbc30c52c8191a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 02/26] fix: strongly 0-reachable sets are empty instead of an
 arithmetic underflow

---
 src/algorithms/lineargraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..e75675a 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,8 +134,11 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
-        let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
+        if r == 0 {
+            return res;
+        }
+        let bfs = self.right_bfs(u, r-1);
 
         let iu = self.index_of(u);
         for (d, layer) in bfs.iter().enumerate() {
-- 
2.43.0


From 09936cc6b9a349e0de34eab35b3aa10b7cc43701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 03/26] fix: undirected adjacency of digraphs checks both arc
 directions

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..dd82594 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From 14498400b8dadda7b611a791f770e7ec627806e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:53 +0000
Subject: [PATCH 04/26] fix: generators keep all vertices for degenerate sizes
 (path, clique, biclique, star, grid, k-partite)

---
 src/editdigraph.rs | 13 ++++++-------
 src/editgraph.rs   |  8 +++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index dd82594..b494d9e 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -222,10 +222,9 @@ impl MutableDigraph for EditDigraph {
 impl EditDigraph {
     /// Generates a directed path on `n` vertices.
     pub fn path(n:u32) -> EditDigraph {
-        let mut res = EditDigraph::with_capacity(n as usize);
-        for u in 0..(n-1) {
-            let v = u+1;
-            res.add_arc(&u,&v);
+        let mut res = EditDigraph::independent(n);
+        for u in 1..n {
+            res.add_arc(&(u-1),&u);
         }
 
         res
@@ -261,7 +260,7 @@ impl EditDigraph {
     /// Generates a directed complete graph (clique). The edges are directed according
     /// to a linear ordering.
     pub fn clique(n:u32) -> EditDigraph {
-        let mut res = EditDigraph::with_capacity(n as usize);
+        let mut res = EditDigraph::independent(n);
         for u in 0..n {
             for v in (u+1)..n {
                 res.add_arc(&u,&v);
@@ -284,7 +283,7 @@ impl EditDigraph {
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     /// Arcs go from the s-side to the t-side.
     pub fn biclique(s:u32, t:u32) -> EditDigraph {
-        let mut res = EditDigraph::with_capacity((s+t) as usize);
+        let mut res = EditDigraph::independent(s+t);
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_arc(&u,&v);
@@ -297,7 +296,7 @@ impl EditDigraph {
     /// Generates a directed grid with s rows and t columns. Arcs go from
     /// left to right / top to bottom.
     pub fn grid(s:u32, t:u32) -> EditDigraph {
-        let mut res = EditDigraph::with_capacity((s*t) as usize);
+        let mut res = EditDigraph::independent(s*t);
         if s == 0 || t == 0 {
             return res;
         }
diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..b683191 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -335,7 +335,7 @@ impl EditGraph {
 
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     pub fn biclique(s:u32, t:u32) -> EditGraph {
-        let mut res = EditGraph::with_capacity((s+t) as usize);
+        let mut res = EditGraph::independent(s+t);
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_edge(&u,&v);
@@ -354,8 +354,6 @@ impl EditGraph {
 
         if sizes.is_empty() {
             return EditGraph::new();
-        } else if sizes.len() == 1 {
-            return EditGraph::clique(sizes[0]);
         }
 
         let mut ranges:Vec<(u32,u32)> = Vec::new();
@@ -367,7 +365,7 @@ impl EditGraph {
 
         let n = ranges.last().unwrap().1;
 
-        let mut res = EditGraph::with_capacity(n as usize);
+        let mut res = EditGraph::independent(n);
 
         #[allow(clippy::needless_range_loop)]
         for i in 0..ranges.len() {
@@ -387,7 +385,7 @@ impl EditGraph {
 
     /// Generates a grid with s rows and t columns.
     pub fn grid(s:u32, t:u32) -> EditGraph {
-        let mut res = EditGraph::with_capacity((s*t) as usize);
+        let mut res = EditGraph::independent(s*t);
         if s == 0 || t == 0 {
             return res;
         }
-- 
2.43.0


From ab852423db13396334b4b388a8fb4c57db16dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 05/26] fix: disjoint union and normalisation of digraphs keep
 arcs, not undirected edges

---
 src/editdigraph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index b494d9e..c64fe7d 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -333,22 +333,22 @@ impl EditDigraph {
 
     /// Creates a new graph that is the disjoint union of `self` and `graph`.
     /// The vertices of the second graph are relabelled to avoid index clashes.
-    pub fn disj_union(&self, graph: &impl Graph) -> EditDigraph {
+    pub fn disj_union(&self, graph: &impl Digraph) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(self.len() + graph.len());
 
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_arcs(graph.arcs().map(|(u,v)| (u+offset,v+offset) ));
 
         res
     }
 
     /// Computes the disjoint unions of all graphs in the iterator `it`.
-    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Graph + 'a {
+    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Digraph + 'a {
         let mut res = EditDigraph::new();
         for graph in it {
             res = res.disj_union(graph);
@@ -377,7 +377,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From 006f58efe12f6e372cdf9e4972a41e351ae4c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 06/26] fix: contracting a vertex with itself does not delete
 it

---
 src/editgraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index b683191..391df8f 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -495,6 +495,9 @@ impl EditGraph {
         if !self.contains(u) || !self.contains(v) {
             panic!("Pair {u},{v} not contained in graph.");
         }
+        if u == v {
+            return;
+        }
         let mut N:VertexSet = self.neighbours(v).cloned().collect();
         N.remove(u); // Avoid adding a self-loop
 
-- 
2.43.0


From 0476d7c0cafc173c752e4d5d7c9003f99800bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 07/26] fix: the mixed iterator also yields loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From faf120e19e5027194c0a765f2fb29aaa6f92789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 08/26] fix: graph products keep vertices without edges

---
 src/operations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..4c9c2c5 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -82,6 +82,8 @@ impl<G> GraphOperations<G> for G where G: Graph {
             }
         }
 
+        res.add_vertices(inverse.keys());
+
         /*
               a ---- b
 
@@ -125,6 +127,8 @@ impl<G> GraphOperations<G> for G where G: Graph {
             }
         }
 
+        res.add_vertices(inverse.keys());
+
         for ((u,v), x) in map.iter() {
             // Fix u, find neighbours of v
             for w in other.neighbours(v) {
-- 
2.43.0


From 53ea5fb718adc49b29d452141cea7f29a0ada01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 09/26] fix: subdividing a graph that uses large labels does
 not overflow

---
 src/operations.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 4c9c2c5..185c3bb 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -53,17 +53,16 @@ impl<G> GraphOperations<G> for G where G: Graph {
             res.add_vertex(u);
             max_id = Vertex::max(max_id, *u);
         }
-        let mut free_id = max_id + 1;
+        let mut free_ids = (max_id..=Vertex::MAX).skip(1).chain(0..max_id).filter(|s| !self.contains(s));
 
         for (u,v) in self.edges() {
             let mut last = u;
-            for s in free_id..free_id+times {
+            for s in free_ids.by_ref().take(times as usize) {
                 debug_assert!(!self.contains(&s));
                 res.add_edge(&last, &s);
                 last = s;
             }
             res.add_edge(&last, &v);
-            free_id += times;
         }
 
         res
-- 
2.43.0


From ba2fd63a8b51ddbab4ca8ab69d75c6230c3cd58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 10/26] fix: swapping adjacent vertices of an ordered graph
 updates both sides

---
 src/ordgraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..077fde2 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -143,7 +143,8 @@ impl OrdGraph {
                 for x in n.neighbours() {
                     let ix = self.indices.get(x).unwrap();
                     needs_update.push(*ix);
-                    if ix < &new_i {
+                    // If x is the other swapped vertex it ends up at `old_i`
+                    if ix < &new_i || (ix == &new_i && old_i < new_i) {
                         new_left.insert(*x);
                     } else {
                         new_right.insert(*x);
-- 
2.43.0


From d8066afa9d35d304df72242423db9a7036a8aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 11/26] fix: counting maximal cliques recurses into the
 neighbourhood of the chosen vertex

---
 src/algorithms/lineargraph.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index e75675a..70c5c5d 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -636,11 +636,9 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
     let u = u.expect("If this fails there is a bug");
 
     // Compute u's *left* neighbourhood inside of `vertices`.
-    let left_neighbours:Vec<Vertex> = vertices[0..iu].iter()
+    let left_neighbours_set:VertexSet = vertices[0..iu].iter()
             .filter_map(|v| if graph.adjacent(&u, v) {Some(*v)} else {None} ).collect();
 
-    let left_neighbours_set:VertexSet = left_neighbours.iter().cloned().collect();
-
     for w in vertices[0..=iu].iter().rev() {
         // We ignore `w` if it is not a maybe-vertex. We also ignore it
         // if it is a neighbour of the pivot `u`.
@@ -648,14 +646,17 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
             continue
         }
 
-        // Recursion
+        // Recursion into the neighbourhood of `w`
+        let w_neighbours:Vec<Vertex> = vertices.iter().filter(|x| graph.adjacent(w, x)).cloned().collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
+
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From f8d77a83aaa0e8458442214ebde565b54c7f214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 12/26] fix: greedy colouring does not leave vertices
 uncoloured

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 70c5c5d..5f53386 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -226,7 +226,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut used_colours:Vec<u32> = vec![];
         for (v, N) in self.left_neighbourhoods() {
             let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();
-            if Ncols.len() == used_colours.len() {
+            if used_colours.iter().all(|c| Ncols.contains(c)) {
                 let new_colour = used_colours.len() as u32;
                 used_colours.push(new_colour);
                 colours.insert(v, new_colour);
-- 
2.43.0


From 30636054163d776a27ecf7d54f01c4bb6a2e3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 13/26] fix: scattered colouring does not merge classes at
 distance `distance - 1`

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 5f53386..9e8e9b6 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -523,7 +523,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From 4905224219d6e8de538c923bac078e7af9ac3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 14/26] fix: cutoffs of domset and scattered colouring do not
 overflow for large radii

---
 src/algorithms/lineargraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9e8e9b6..fb558ea 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -267,7 +267,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = radius.saturating_mul(2).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
@@ -388,7 +388,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
         // Sort by _decreasing_ in-degree, tie-break by
         // total degree.
-        let cutoff = distance.pow(2);
+        let cutoff = distance.saturating_pow(2);
         let n = self.num_vertices() as i64;
         let order:Vec<Vertex> = self.vertices()
                 .cloned()
-- 
2.43.0


From a6e6cda6f17c889f5c7ca4efd0b5c13692624ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 15/26] fix: degeneracy does not put removed vertices with a
 loop back into a bucket

---
 src/algorithms/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..9282d65 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -113,6 +113,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
 
             let v = *buckets[&d].iter().next().unwrap();
             buckets.get_mut(&d).unwrap().remove(&v);
+            core_numbers.insert(v, core_num);
 
             for u in self.neighbours(&v) {
                 if core_numbers.contains_key(u) {
@@ -138,7 +139,6 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 // Updated degree
                 deg_dict.entry(*u).and_modify(|e| *e -= 1);
             }
-            core_numbers.insert(v, core_num);
             order.push(v);
         }
 
-- 
2.43.0


From a11c8728e3d301d329451149618b6210654c06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 16/26] fix: degeneracy bounds for large degrees are the bounds
 of the bucket

---
 src/algorithms/graph.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index 9282d65..0c7bd1b 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -142,14 +142,14 @@ impl<G> GraphAlgorithms for G where G: Graph {
             order.push(v);
         }
 
-        // Compute lower bound for core number. 
-        let ix = calc_index(core_num) as u32; 
-        let lower = if ix <= 129 {       
-            ix
+        // Compute bounds for the degeneracy. `core_num` is a bucket index: buckets
+        // up to 129 contain exactly one degree, every bucket after that contains
+        // the degrees from 128 + 2^(i-129) to 127 + 2^(i-128).
+        let (lower, upper) = if core_num <= 129 {
+            (core_num, core_num)
         } else {
-            129 + (1 << ((ix - 129 - 1) as u32 ))
+            (128 + (1 << (core_num - 129)), 127 + (1 << (core_num - 128)))
         };
-        let upper = core_num;                  
 
         order.reverse(); // The reverse order is more natural to us (small left-degree)
         (lower, upper, order, core_numbers)
-- 
2.43.0


From 5c9817d59d4230fa92cba726049b12e139e5f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 17/26] fix: odd cycle witness of the bipartiteness test has no
 repeated vertices

---
 src/algorithms/graph.rs | 76 +++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 49 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index 0c7bd1b..714a7a6 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -161,7 +161,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
 
         let mut unprocessed:VertexSet = self.vertices().cloned().collect();
 
-        let mut conflict:Option<(Vertex, Vertex, Vertex)> = None;
+        let mut conflict:Option<(Vertex, Vertex)> = None;
 
         // Stores colouring information and the _parent_ vertex which caused
         // the colouring. In this way, we can backtrack and find an odd cycle
@@ -176,9 +176,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
             while let Some((col, v, parent)) = col_queue.pop() {
                 match colours.entry(v) {
                     Occupied(e) => {
-                        let (curr_col, other_parent) =  e.get();
+                        let (curr_col, _) =  e.get();
                         if *curr_col != col {
-                            conflict = Some((parent, v, *other_parent));
+                            conflict = Some((parent, v));
                             break;
                         }
                     }
@@ -195,59 +195,37 @@ impl<G> GraphAlgorithms for G where G: Graph {
         }
 
         // If the colouring failed we construct an odd path witness
-        if let Some((parent1, v, parent2)) = conflict {       
-            // The first path starts at v and follows it until
-            // the 'root' of the colouring via parent1
-            let mut path1:Vec<Vertex> = vec![v, parent1];
-            loop {
-                let last = *path1.last().unwrap();                
-                let par = colours.get(&last).unwrap().1;
-                if par != last {
-                    path1.push(par)
-                } else {
-                    break
-                }
-            }
-
-            // The first path starts at parent2 and follows it until
-            // the 'root' of the colouring
-            let mut path2:Vec<Vertex> = vec![parent2];
-            loop {
-                let last = *path2.last().unwrap();                
-                let par = colours.get(&last).unwrap().1;
-                if par != last {
-                    path2.push(par)
-                } else {
-                    break
+        if let Some((parent, v)) = conflict {       
+            // Follow both ends of the conflicting edge to the 'root' of the colouring
+            let path_to_root = |start:Vertex| -> Vec<Vertex> {
+                let mut path = vec![start];
+                loop {
+                    let last = *path.last().unwrap();
+                    let par = colours.get(&last).unwrap().1;
+                    if par == last {
+                        return path;
+                    }
+                    path.push(par);
                 }
-            }
+            };
 
-            // path1: v parent1 ... root
-            // path1: parent2 ... root
+            // path1: parent ... root
+            // path2: v ... root
+            let mut path1 = path_to_root(parent);
+            let mut path2 = path_to_root(v);
             assert_eq!(path1.last(), path2.last());
 
-            // If v == parent2 then path1 is already an odd cycle
-            if path1.len() > 1 && path1.first() == path1.last() {
-                path1.pop();
-                return BipartiteWitness::OddCycle(path1);   
-            }
-
-            // If v == parent1 then path2 is already an odd cycle
-            if path2.len() > 1 && path2.first() == path2.last() {
+            // Remove the shared part of both paths, only the last common
+            // vertex `x` is part of the odd cycle
+            let mut x = *path1.last().unwrap();
+            while !path1.is_empty() && path1.last() == path2.last() {
+                x = path1.pop().unwrap();
                 path2.pop();
-                return BipartiteWitness::OddCycle(path2);   
-            }            
-
-            // path2 = parent2 ... x root  (for some vertex x, potentially x = parent2)
-            path2.pop();     
-
-            // path2 = parent2 ... x
-            path2.reverse(); 
-            // path2 = x ... parent2
-        
+            }
 
             // Create odd cycle by concatenating paths
-            path1.append(&mut path2); // root ... parent1 v parent2 ... x
+            path1.push(x);
+            path1.extend(path2.iter().rev()); // parent ... x ... v
 
             return BipartiteWitness::OddCycle(path1);
         };
-- 
2.43.0


From f7da673c4825090c7fd4d6394696659bb1e6cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 18/26] fix: normalising an empty DegenGraph does not read out
 of bounds

---
 src/degengraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..1de3582 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -69,6 +69,9 @@ impl DegenGraph {
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
         let mut old_to_new = VertexMap::default();
+        if self.contents.is_empty() {
+            return new_to_old;
+        }
         unsafe {
             loop {
                 let u = *self.contents.get_unchecked(i); // contents[i]
-- 
2.43.0


From ac4c57e1db03ab6166c8916436cf59663307e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 19/26] fix: the arc iterator of DTFGraph yields every arc with
 its direction

---
 src/iterators.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..305b03a 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,9 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
+            // `u` is an in-neighbour of `curr_v`
             let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            return Some((u, self.curr_v));
         }
 
         None
-- 
2.43.0


From e5f013dfa14906cff0fbf76aecd2c2725ebc2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 20/26] fix: reserving a smaller depth does not lower the depth
 of a DTFGraph

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..689dc6e 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -344,9 +344,9 @@ impl DTFGraph {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
+            self.depth = depth;
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
-- 
2.43.0


From ce27fc080e3c7e7c3adb57b93d656dae0a0214a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 21/26] fix: taking a layer of a DTFGraph does not change its
 depth

---
 src/dtfgraph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 689dc6e..76a8b93 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -163,7 +163,7 @@ impl DTFNode {
     }
 
     pub fn in_neighbours_at(&self, depth:usize) ->  Box<dyn Iterator<Item=&Vertex> + '_> {
-        Box::new(self.in_arcs.get(depth-1).unwrap().iter())
+        Box::new(self.in_arcs.get(depth-1).into_iter().flat_map(|N| N.iter()))
     }
 
     pub fn in_degree(&self) -> u32 {
@@ -269,7 +269,6 @@ impl DTFGraph {
     }
 
     pub fn layer(&mut self, depth:usize) -> DTFLayer {
-        self.reserve_depth(depth);
         DTFLayer{ graph: self, depth }
     }
 
-- 
2.43.0


From 94b1db022b51a000f6117cbb54650fd1be983f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 22/26] fix: adjacency and degrees of a DTFLayer refer to the
 layer only

---
 src/dtfgraph.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 76a8b93..8601045 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,11 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +85,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.nodes.get(u).unwrap().in_degree_at(self.depth)
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.nodes.get(u).unwrap().out_degree_at(self.depth)
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
@@ -174,6 +174,14 @@ impl DTFNode {
         self.out_degs.iter().sum1::<u32>().unwrap() 
     }
 
+    pub fn in_degree_at(&self, depth:usize) -> u32 {
+        self.in_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
+    pub fn out_degree_at(&self, depth:usize) -> u32 {
+        self.out_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
     pub fn degree(&self) -> u32 {
         self.out_degree()+self.in_degree()
     }
-- 
2.43.0


From 0218bda488ccbd79d4c86ffd8be47043f5558cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 23/26] fix: the small distance of a vertex to itself is zero

---
 src/dtfgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 8601045..138251a 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -420,6 +420,10 @@ impl DTFGraph {
     /// Returns the distance between the vertices `u` and `v` if it
     /// it smaller than the depth of the augmentation. Otherwise returns `None`.
     pub fn small_distance(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
+        if u == v {
+            return Some(0)
+        }
+
         let mut dist = u32::MAX;
 
         if let Some(d) = self.get_arc_depth(u, v) {
-- 
2.43.0


From 5be7832a1e88f557b37792f72e87c64e907d0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 24/26] fix: cutoff of the DTFGraph dominating set does not
 overflow for large radii

---
 src/dtfgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 138251a..23dfb39 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -575,7 +575,7 @@ impl DTFGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = radius.saturating_mul(2).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0


From 64cdcb222f1e5015fdb72b4dea020da2d96da60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 25/26] fix: extending a colouring by negative colours does not
 merge classes

---
 src/graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 49b858d..6d6dd26 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -194,7 +194,11 @@ impl<T> VertexColouring<T> where T: Copy + Hash + Eq {
         } else {
             let mut res = *colours.iter().max().unwrap();
             res.inc();
-            res
+            // Negative colours would otherwise be shifted onto colours already in use.
+            match other.colouring.values().min() {
+                Some(&lowest) if lowest < T::zero() => res - lowest,
+                _ => res
+            }
         };
 
         for (u, c) in other.iter() {
-- 
2.43.0


From a40dba71d73b5fd1c522164b59541c5a3b6adb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 26/26] fix: unreadable input is reported as an error by the
 text readers

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0

