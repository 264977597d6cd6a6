From 69e27f43a82907a65e0888864f2436ed9e89af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 01/26] fix: EditDigraph::adjacent ignored arcs from v to u

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..dd82594 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From aca3c835e813a16f9eff0ad3ae457b3bc30b4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 02/26] fix: vertices_and_edges() dropped loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From 9f5f1c7fba44eb9369dd93131de75c1c3d6108ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 03/26] fix: DTFArcIterator dropped arcs and reversed the
 others

---
 src/iterators.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..f5b220b 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,9 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
+            // u is an in-neighbour of the current vertex
             let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            return Some((u, self.curr_v));
         }
 
         None
-- 
2.43.0


From d62d39d35df36f2c468d8a3deada6f9aec7f70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 04/26] fix: DTFGraph::reserve_depth could shrink the depth and
 left arc counts short

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..689dc6e 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -344,9 +344,9 @@ impl DTFGraph {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
+            self.depth = depth;
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
-- 
2.43.0


From c3d6db6ee376b37a2c1c4bcbae7cb87418a00dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 05/26] fix: DTFLayer reported the whole augmentation instead
 of its layer

---
 src/dtfgraph.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 689dc6e..9b6edd3 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,11 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +85,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.nodes.get(u).unwrap().in_degree_at(self.depth)
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.nodes.get(u).unwrap().out_degree_at(self.depth)
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
@@ -163,7 +163,15 @@ impl DTFNode {
     }
 
     pub fn in_neighbours_at(&self, depth:usize) ->  Box<dyn Iterator<Item=&Vertex> + '_> {
-        Box::new(self.in_arcs.get(depth-1).unwrap().iter())
+        Box::new(self.in_arcs.get(depth-1).into_iter().flat_map(|N| N.iter()))
+    }
+
+    pub fn in_degree_at(&self, depth:usize) -> u32 {
+        self.in_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
+    pub fn out_degree_at(&self, depth:usize) -> u32 {
+        self.out_degs.get(depth-1).copied().unwrap_or(0)
     }
 
     pub fn in_degree(&self) -> u32 {
@@ -269,7 +277,6 @@ impl DTFGraph {
     }
 
     pub fn layer(&mut self, depth:usize) -> DTFLayer {
-        self.reserve_depth(depth);
         DTFLayer{ graph: self, depth }
     }
 
-- 
2.43.0


From c6f46e1ae041d94de8798d51b54ec0adfda4299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 06/26] fix: DTFGraph::small_distance of a vertex to itself

---
 src/dtfgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 9b6edd3..6830d2e 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -420,6 +420,10 @@ impl DTFGraph {
     /// Returns the distance between the vertices `u` and `v` if it
     /// it smaller than the depth of the augmentation. Otherwise returns `None`.
     pub fn small_distance(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
+        if u == v {
+            return Some(0)
+        }
+
         let mut dist = u32::MAX;
 
         if let Some(d) = self.get_arc_depth(u, v) {
-- 
2.43.0


From 431fafc86290053ab81772a53fe7252767791c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 07/26] fix: OrdGraph::swap of adjacent vertices left both in
 each other's right set

---
 src/ordgraph.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..0fbc8d4 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -168,6 +168,17 @@ impl OrdGraph {
         self.indices.insert(*u, iv);
         self.indices.insert(*v, iu);
         self.nodes.swap(iu, iv);
+
+        // If u and v are adjacent, then the above still has them at their old positions
+        // when either is moved. Only one of them is now left of the other.
+        let (first, second) = (iu.min(iv), iu.max(iv));
+        let (x, y) = (self.nodes[first].v, self.nodes[second].v);
+        if self.nodes[first].left.remove(&y) {
+            self.nodes[first].right.insert(y);
+        }
+        if self.nodes[second].right.remove(&x) {
+            self.nodes[second].left.insert(x);
+        }
     }
 
     /// Returns a copy of `u`'s right neighbourhood. 
-- 
2.43.0


From 0a43a7e64b75ce5b029a9e1157d0dd35abfc4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 08/26] fix: count_max_cliques recursed into the pivot's
 neighbours instead of the branching vertex's

---
 src/algorithms/lineargraph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..11b6d84 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -646,13 +646,17 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
         }
 
         // Recursion
+        let w_neighbours:Vec<Vertex> = vertices[0..=iu].iter()
+                .filter(|x| *x != w && graph.adjacent(w, x)).cloned().collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
+
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From 177a1e23fb28827f03e37941266095143111aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 09/26] fix: colour_greedy left vertices without a colour

---
 src/algorithms/lineargraph.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 11b6d84..036ca23 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -223,18 +223,14 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut used_colours:Vec<u32> = vec![];
         for (v, N) in self.left_neighbourhoods() {
             let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();
-            if Ncols.len() == used_colours.len() {
-                let new_colour = used_colours.len() as u32;
-                used_colours.push(new_colour);
-                colours.insert(v, new_colour);
-                continue
-            }
 
             // Find unused colour
-            for c in used_colours.iter() {
-                if !Ncols.contains(c) {
-                    colours.insert(v, *c);
-                    break
+            match used_colours.iter().find(|c| !Ncols.contains(c)) {
+                Some(c) => { colours.insert(v, *c); },
+                None => {
+                    let new_colour = used_colours.len() as u32;
+                    used_colours.push(new_colour);
+                    colours.insert(v, new_colour);
                 }
             }
         }
-- 
2.43.0


From 3fe9181795c539f920bcac6126b691ad82b51077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 10/26] fix: scattered_colouring merged classes that are too
 close for odd distances

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 036ca23..d14782b 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -516,7 +516,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From 14712acd65346a4b20d758cdbe686a27227e29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 11/26] fix: domset reported upper bounds instead of minimum
 distances

---
 src/algorithms/lineargraph.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index d14782b..fe10e07 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -320,6 +320,10 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
             }
         }
 
+        // The values in `dom_distance` are only upper bounds which were good enough to
+        // choose the dominating set. Compute the actual distances to it.
+        let dom_distance = distances_to_set(self, &domset);
+
         if !witness {
             return (domset, dom_distance, None)
         }
@@ -542,6 +546,30 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 }
 
+/// Computes the distance to the nearest member of `sources` for each vertex from
+/// which `sources` can be reached.
+fn distances_to_set<L: LinearGraph>(graph:&L, sources:&VertexSet) -> VertexMap<u32> {
+    let mut res:VertexMap<u32> = sources.iter().map(|u| (*u, 0)).collect();
+    let mut layer:Vec<Vertex> = sources.iter().cloned().collect();
+    let mut dist = 0;
+
+    while !layer.is_empty() {
+        dist += 1;
+        let mut next_layer = Vec::new();
+        for u in layer {
+            for v in graph.neighbours(&u) {
+                if !res.contains_key(v) {
+                    res.insert(*v, dist);
+                    next_layer.push(*v);
+                }
+            }
+        }
+        layer = next_layer;
+    }
+
+    res
+}
+
 // TODO: These methods should probably go into its own dedicated 'WReach' struct
 fn small_distance_sets<V,I1,I2>(wreach:&VertexMap<VertexMap<u32>>, distance:u32, X:I1, Y:I2) -> Option<u32>
     where V: Borrow<Vertex>, I1: IntoIterator<Item=V>, I2: IntoIterator<Item=V> {
-- 
2.43.0


From f2f966fea064582519488bd492c516a79fafa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 12/26] fix: sreach_set underflowed for r = 0

---
 src/algorithms/lineargraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index fe10e07..0267c45 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,8 +134,11 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
-        let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
+        if r == 0 {
+            return res;
+        }
+        let bfs = self.right_bfs(u, r-1);
 
         let iu = self.index_of(u);
         for (d, layer) in bfs.iter().enumerate() {
-- 
2.43.0


From e87d841a836886d3b1af4c650906a7c8add12924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 13/26] fix: DegenGraph::normalize read out of bounds on an
 empty graph

---
 src/degengraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..f5ae473 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -65,6 +65,10 @@ impl DegenGraph {
     /// 
     /// Returns a vertex map from the new vertex names (keys) to the old vertex names (values).
     pub fn normalize(&mut self) -> VertexMap<Vertex> {
+        if self.contents.is_empty() {
+            return VertexMap::default();
+        }
+
         let mut i = 0;
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
-- 
2.43.0


From 5146f730cfab3dc2df603a0bd24fdcadcbac4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 14/26] fix: SReachTraceOracle::compute_traces was undefined
 behaviour for queries not sorted by the ordering

---
 src/datastructures/sreach_trace_oracle.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/datastructures/sreach_trace_oracle.rs b/src/datastructures/sreach_trace_oracle.rs
index cd53061..418faf4 100644
--- a/src/datastructures/sreach_trace_oracle.rs
+++ b/src/datastructures/sreach_trace_oracle.rs
@@ -173,9 +173,7 @@ impl SReachTraceOracle {
 
                 // Correct count for prefix
                 let set_prefix = &set[..set.len()-1];
-                unsafe {
-                    *traces.get_mut(set_prefix).unwrap_unchecked() -= count; // This entry must exist
-                }
+                *traces.get_mut(set_prefix).expect("`inner` must be sorted by the graph's ordering") -= count;
             }
         }
 
@@ -211,9 +209,7 @@ impl SReachTraceOracle {
             }
 
             // Correct count for prefix. This key must exist in `traces`
-            unsafe {
-                *traces.get_mut(&trace_prefix).unwrap_unchecked() -= 1;
-            }
+            *traces.get_mut(&trace_prefix).expect("`inner` must be sorted by the graph's ordering") -= 1;
         }
         // println!("Final traces {traces:?}");
 
-- 
2.43.0


From 5f22c6ca2a6591a8e0340a34c5a87ba50cfa020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 15/26] fix: is_bipartite returned closed walks with repeated
 vertices as odd cycles

---
 src/algorithms/graph.rs | 48 +++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..cff1de2 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -161,7 +161,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
 
         let mut unprocessed:VertexSet = self.vertices().cloned().collect();
 
-        let mut conflict:Option<(Vertex, Vertex, Vertex)> = None;
+        let mut conflict:Option<(Vertex, Vertex)> = None;
 
         // Stores colouring information and the _parent_ vertex which caused
         // the colouring. In this way, we can backtrack and find an odd cycle
@@ -176,9 +176,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
             while let Some((col, v, parent)) = col_queue.pop() {
                 match colours.entry(v) {
                     Occupied(e) => {
-                        let (curr_col, other_parent) =  e.get();
+                        let (curr_col, _) =  e.get();
                         if *curr_col != col {
-                            conflict = Some((parent, v, *other_parent));
+                            conflict = Some((parent, v));
                             break;
                         }
                     }
@@ -195,10 +195,10 @@ impl<G> GraphAlgorithms for G where G: Graph {
         }
 
         // If the colouring failed we construct an odd path witness
-        if let Some((parent1, v, parent2)) = conflict {       
-            // The first path starts at v and follows it until
-            // the 'root' of the colouring via parent1
-            let mut path1:Vec<Vertex> = vec![v, parent1];
+        if let Some((parent1, v)) = conflict {       
+            // The first path starts at parent1 and follows it until
+            // the 'root' of the colouring
+            let mut path1:Vec<Vertex> = vec![parent1];
             loop {
                 let last = *path1.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -209,9 +209,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // The first path starts at parent2 and follows it until
+            // The second path starts at v and follows it until
             // the 'root' of the colouring
-            let mut path2:Vec<Vertex> = vec![parent2];
+            let mut path2:Vec<Vertex> = vec![v];
             loop {
                 let last = *path2.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -222,32 +222,24 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // path1: v parent1 ... root
-            // path1: parent2 ... root
+            // path1: parent1 ... root
+            // path2: v ... root
             assert_eq!(path1.last(), path2.last());
 
-            // If v == parent2 then path1 is already an odd cycle
-            if path1.len() > 1 && path1.first() == path1.last() {
+            // Cut off the part shared by both paths except for its first vertex, where they meet
+            while path1.len() > 1 && path2.len() > 1 && path1[path1.len()-2] == path2[path2.len()-2] {
                 path1.pop();
-                return BipartiteWitness::OddCycle(path1);   
-            }
-
-            // If v == parent1 then path2 is already an odd cycle
-            if path2.len() > 1 && path2.first() == path2.last() {
                 path2.pop();
-                return BipartiteWitness::OddCycle(path2);   
-            }            
-
-            // path2 = parent2 ... x root  (for some vertex x, potentially x = parent2)
-            path2.pop();     
+            }
 
-            // path2 = parent2 ... x
-            path2.reverse(); 
-            // path2 = x ... parent2
-        
+            // path1 = parent1 ... meet
+            // path2 = v ... x meet
+            path2.pop();
+            path2.reverse();
+            // path2 = x ... v
 
             // Create odd cycle by concatenating paths
-            path1.append(&mut path2); // root ... parent1 v parent2 ... x
+            path1.append(&mut path2); // parent1 ... meet x ... v
 
             return BipartiteWitness::OddCycle(path1);
         };
-- 
2.43.0


From 00dc8959d3895aa405e3dddccff3197a8b7a6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 16/26] fix: degeneracy reported bucket indices as bounds and
 core numbers above 128

---
 src/algorithms/graph.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index cff1de2..acc2fa8 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -83,6 +83,16 @@ impl<G> GraphAlgorithms for G where G: Graph {
                     .trailing_zeros() as usize
         }
 
+        // The smallest and largest degree which end up in the bucket with index `ix`.
+        fn bucket_range(ix: u32) -> (u32, u32) {
+            let small = 2_u32.pow(7);
+            if ix <= small {
+                (ix, ix)
+            } else {
+                (small + 2_u32.pow(ix - small - 1), small - 1 + 2_u32.pow(ix - small))
+            }
+        }
+
         let mut deg_dict = VertexMap::default();
         let mut core_numbers = VertexMap::default();        
         let mut buckets = FxHashMap::<i32, FxHashSet<Vertex>>::default();
@@ -96,7 +106,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 .insert(*v);
         }
 
-        let mut core_num = 0;
+        let mut core_bucket = 0;
         for _ in 0..self.num_vertices() {
             // Find non-empty bucket. If this loop executes, we
             // know that |G| > 0 so a non-empty bucket must exist.
@@ -105,7 +115,7 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 d += 1
             }
 
-            core_num = max(core_num, d as u32);
+            core_bucket = max(core_bucket, d as u32);
 
             if !buckets.contains_key(&d) {
                 break;
@@ -138,18 +148,12 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 // Updated degree
                 deg_dict.entry(*u).and_modify(|e| *e -= 1);
             }
-            core_numbers.insert(v, core_num);
+            core_numbers.insert(v, bucket_range(core_bucket).1);
             order.push(v);
         }
 
-        // Compute lower bound for core number. 
-        let ix = calc_index(core_num) as u32; 
-        let lower = if ix <= 129 {       
-            ix
-        } else {
-            129 + (1 << ((ix - 129 - 1) as u32 ))
-        };
-        let upper = core_num;                  
+        // The degeneracy lies in the range of the largest bucket that we had to visit.
+        let (lower, upper) = bucket_range(core_bucket);
 
         order.reverse(); // The reverse order is more natural to us (small left-degree)
         (lower, upper, order, core_numbers)
-- 
2.43.0


From b9f09e59631355df67453a0165f874dacd775b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 17/26] fix: generators dropped vertices without edges and
 directed path(0) underflowed

---
 src/editdigraph.rs | 8 +++++++-
 src/editgraph.rs   | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index dd82594..32de068 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -223,7 +223,10 @@ impl EditDigraph {
     /// Generates a directed path on `n` vertices.
     pub fn path(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
-        for u in 0..(n-1) {
+        if n > 0 {
+            res.add_vertex(&0);
+        }
+        for u in 0..n.saturating_sub(1) {
             let v = u+1;
             res.add_arc(&u,&v);
         }
@@ -263,6 +266,7 @@ impl EditDigraph {
     pub fn clique(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
         for u in 0..n {
+            res.add_vertex(&u);
             for v in (u+1)..n {
                 res.add_arc(&u,&v);
             }
@@ -285,6 +289,7 @@ impl EditDigraph {
     /// Arcs go from the s-side to the t-side.
     pub fn biclique(s:u32, t:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity((s+t) as usize);
+        res.add_vertices(0..(s+t));
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_arc(&u,&v);
@@ -301,6 +306,7 @@ impl EditDigraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0);
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..c249f17 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -336,6 +336,7 @@ impl EditGraph {
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     pub fn biclique(s:u32, t:u32) -> EditGraph {
         let mut res = EditGraph::with_capacity((s+t) as usize);
+        res.add_vertices(0..(s+t));
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_edge(&u,&v);
@@ -354,8 +355,6 @@ impl EditGraph {
 
         if sizes.is_empty() {
             return EditGraph::new();
-        } else if sizes.len() == 1 {
-            return EditGraph::clique(sizes[0]);
         }
 
         let mut ranges:Vec<(u32,u32)> = Vec::new();
@@ -368,6 +367,7 @@ impl EditGraph {
         let n = ranges.last().unwrap().1;
 
         let mut res = EditGraph::with_capacity(n as usize);
+        res.add_vertices(0..n);
 
         #[allow(clippy::needless_range_loop)]
         for i in 0..ranges.len() {
@@ -391,6 +391,7 @@ impl EditGraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0);
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
-- 
2.43.0


From 28dbc55df515115eb20036e1716fae6a86b5e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 18/26] fix: graph products dropped pairs without edges

---
 src/operations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..b987ae8 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -81,6 +81,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
                 free_id += 1;
             }
         }
+        res.add_vertices(0..free_id);
 
         /*
               a ---- b
@@ -124,6 +125,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
                 free_id += 1;
             }
         }
+        res.add_vertices(0..free_id);
 
         for ((u,v), x) in map.iter() {
             // Fix u, find neighbours of v
-- 
2.43.0


From 53296d362a6db732944823d4996152d849d2c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 19/26] fix: loaders panicked on read errors and invalid UTF-8
 instead of returning them

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0


From cfb05f83b233bd8db2fca1fcc5f79c063d1679f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 20/26] fix: contract_pair of a vertex with itself deleted the
 vertex

---
 src/editgraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index c249f17..444c374 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -498,6 +498,9 @@ impl EditGraph {
         if !self.contains(u) || !self.contains(v) {
             panic!("Pair {u},{v} not contained in graph.");
         }
+        if u == v {
+            return;
+        }
         let mut N:VertexSet = self.neighbours(v).cloned().collect();
         N.remove(u); // Avoid adding a self-loop
 
-- 
2.43.0


From 53ac01170c8ec1fe49238af72795ebb7de59035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 21/26] fix: is_shattered overflowed for large k or large sets

---
 src/datastructures/sreach_trace_oracle.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/sreach_trace_oracle.rs b/src/datastructures/sreach_trace_oracle.rs
index 418faf4..b528d69 100644
--- a/src/datastructures/sreach_trace_oracle.rs
+++ b/src/datastructures/sreach_trace_oracle.rs
@@ -270,8 +270,13 @@ impl SReachTraceOracle {
         let traces = self.compute_traces(&inner, graph);
 
         assert!(k >= inner.len() as u32);
-        let multiplicity = 2usize.pow(k - inner.len() as u32);
-        let num_neighbourhoods = 2usize.pow(inner.len() as u32);
+        // If either of these numbers is too large to represent, then no graph
+        // has enough vertices to shatter `inner`.
+        let multiplicity = 2usize.checked_pow(k - inner.len() as u32);
+        let num_neighbourhoods = 2usize.checked_pow(inner.len() as u32);
+        let (Some(multiplicity), Some(num_neighbourhoods)) = (multiplicity, num_neighbourhoods) else {
+            return false
+        };
 
         if traces.len() < num_neighbourhoods {
             return false
-- 
2.43.0


From 21a2141acdd3c65845048f994b14a64406060535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 22/26] fix: EditDigraph::normalize and disj_union dropped or
 reversed arcs

---
 src/editdigraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 32de068..b8d325f 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -346,7 +346,7 @@ impl EditDigraph {
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
         res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
@@ -384,7 +384,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From c310a7a6409c7c1768c8148b35a4c188e7e39ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 23/26] fix: write_gzipped reported success when the end of the
 stream could not be written

---
 src/io.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 866b7c3..8a170b7 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -2,17 +2,32 @@ use crate::editgraph::EditGraph;
 use crate::graph::Vertex;
 use crate::iterators::*;
 
+use std::cell::RefCell;
 use std::ffi::OsStr;
 use std::io;
 use std::io::{BufRead,BufReader,BufWriter,Write};
 use std::fs::File;
 use std::path::Path;
+use std::rc::Rc;
 use flate2::Compression;
 use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
 
+/// Lets `write_gzipped` finish the stream after the writer has been handed to `write_buf`.
+struct SharedGzEncoder(Rc<RefCell<GzEncoder<File>>>);
+
+impl Write for SharedGzEncoder {
+    fn write(&mut self, buf:&[u8]) -> io::Result<usize> {
+        self.0.borrow_mut().write(buf)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.borrow_mut().flush()
+    }
+}
+
 pub trait WriteToFile {
     fn write_txt(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
@@ -22,9 +37,13 @@ pub trait WriteToFile {
 
     fn write_gzipped(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
-        let gz = GzEncoder::new(file, Compression::default());
-        let buf = BufWriter::new(gz);
-        self.write_buf(Box::new(buf))
+        let gz = Rc::new(RefCell::new(GzEncoder::new(file, Compression::default())));
+        let buf = BufWriter::new(SharedGzEncoder(gz.clone()));
+        self.write_buf(Box::new(buf))?;
+
+        // Dropping the encoder also writes the end of the stream but ignores errors
+        let res = gz.borrow_mut().try_finish();
+        res
     }
 
     fn write_buf(&self, buf:Box<dyn Write>) -> io::Result<()>;
-- 
2.43.0


From 1b02b57468829754fe8e8d96489d323d22c993a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 24/26] fix: dominating sets and scattered colourings
 overflowed for radii above 32767

---
 src/algorithms/lineargraph.rs | 4 ++--
 src/dtfgraph.rs               | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 0267c45..224e4fa 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -263,7 +263,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
@@ -388,7 +388,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
         // Sort by _decreasing_ in-degree, tie-break by
         // total degree.
-        let cutoff = distance.pow(2);
+        let cutoff = distance.saturating_pow(2);
         let n = self.num_vertices() as i64;
         let order:Vec<Vertex> = self.vertices()
                 .cloned()
diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 6830d2e..4b70022 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -575,7 +575,7 @@ impl DTFGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0


From 8e71a958bfbe4afa2d9265ba31d63e4b7a74cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 25/26] fix: gzip loaders silently dropped everything after the
 first member

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 8a170b7..f051262 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 use std::path::Path;
 use std::rc::Rc;
 use flate2::Compression;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
@@ -191,7 +191,7 @@ impl LoadFromFile for EditGraph {
         let file = File::open(filename)?;
         let metadata = file.metadata()?;
         let size = metadata.len();
-        let gz = GzDecoder::new(file);
+        let gz = MultiGzDecoder::new(file);
 
         // This is a rought estimate of n given the number of bytes in
         // the compresed file, obtained from data in my network collection.
@@ -230,7 +230,7 @@ fn open_reader(filename:&str) -> io::Result<Box<dyn BufRead>> {
         }
         Some("gz") => {
             let file = File::open(path)?;
-            let gz = GzDecoder::new(file);
+            let gz = MultiGzDecoder::new(file);
             Box::new(BufReader::new(gz))
         }
         _ => {
@@ -251,7 +251,7 @@ fn open_reader_txt(filename:&str) -> io::Result<Box<dyn BufRead>> {
 fn open_reader_gzip(filename:&str) -> io::Result<Box<dyn BufRead>> {
     let path = Path::new(&filename);
     let file = File::open(path)?;
-    let gz = GzDecoder::new(file);
+    let gz = MultiGzDecoder::new(file);
     Ok(Box::new(BufReader::new(gz)))
 }
 
-- 
2.43.0


From 494d0d7a1e308a73a74d9584a8e0433087599bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 26/26] fix: disjoint_extend reused existing colours for
 negative colours

---
 src/graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 49b858d..af16881 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -197,8 +197,11 @@ impl<T> VertexColouring<T> where T: Copy + Hash + Eq {
             res
         };
 
+        // Negative colours must not be shifted back into the range of existing colours
+        let base:T = other.iter().map(|(_, c)| *c).min().unwrap_or(T::zero()).min(T::zero());
+
         for (u, c) in other.iter() {
-            self.colouring.entry(*u).or_insert(*c+offset);
+            self.colouring.entry(*u).or_insert((*c-base)+offset);
         }
     }
 
-- 
2.43.0

