From 396d00028b630ca74cbc6a830b60df10502a50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 01/53] fix: deleting a node also removes its edges in
 components created by the same update

---
 core/src/graph/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 5d1f277..0f7a0e6 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -403,8 +403,6 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
-        let all_components = self.get_all_components(None, None);
-
         let mut update_graph_index = ComponentType::init_update_graph_index(self)?;
         // Cache the expensive mapping of node names to IDs
         let cache_size = NonZeroUsize::new(1_000).ok_or(GraphAnnisCoreError::ZeroCacheSize)?;
@@ -456,8 +454,9 @@ impl<CT: ComponentType> Graph<CT> {
                         self.node_annos.remove_item(&existing_node_id)?;
 
                         // delete all edges pointing to this node either as source or target
-                        for c in all_components.iter() {
-                            if let Ok(gs) = self.get_or_create_writable(c) {
+                        // (this includes components which have been created by this update)
+                        for c in self.get_all_components(None, None) {
+                            if let Ok(gs) = self.get_or_create_writable(&c) {
                                 gs.delete_node(existing_node_id)?;
                             }
                         }
-- 
2.43.0


From ac702e98603164502c922ffcfe97cb39f3c4fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 02/53] fix: also invalidate the token index of ancestors
 connected by named dominance or coverage components

---
 graphannis/src/annis/db/aql/model.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4ad8807..34cd609 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -453,7 +453,7 @@ impl ComponentType for AnnotationComponentType {
 
         let mut text_coverage_components = FxHashSet::default();
         text_coverage_components
-            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), Some("")));
+            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), None));
         text_coverage_components
             .extend(graph.get_all_components(Some(AnnotationComponentType::Coverage), None));
         Ok(AQLUpdateGraphIndex {
@@ -525,9 +525,8 @@ impl ComponentType for AnnotationComponentType {
         } = update
             && let Ok(ctype) = AnnotationComponentType::from_str(&component_type)
         {
-            if (ctype == AnnotationComponentType::Dominance
-                || ctype == AnnotationComponentType::Coverage)
-                && component_name.is_empty()
+            if ctype == AnnotationComponentType::Dominance
+                || ctype == AnnotationComponentType::Coverage
             {
                 // might be a new text coverage component
                 let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
-- 
2.43.0


From 85adc581a6feb2e8551491f13ceebaaa6829d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 03/53] fix: keep the token index correct when token labels
 change or a node is deleted and re-added in one update

---
 graphannis/src/annis/db/aql/model.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 34cd609..6b8d93a 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -515,6 +515,33 @@ impl ComponentType for AnnotationComponentType {
         graph: &AnnotationGraph,
         index: &mut Self::UpdateGraphIndex,
     ) -> std::result::Result<(), ComponentTypeError> {
+        match &update {
+            UpdateEvent::DeleteNode { node_name } => {
+                // A new node with the same name can be added later, which will have a different ID
+                index.cached_node_ids.remove(node_name)?;
+            }
+            UpdateEvent::AddNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+                ..
+            }
+            | UpdateEvent::DeleteNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+            } if !index.graph_without_nodes
+                && anno_ns == TOKEN_KEY.ns.as_str()
+                && anno_name == TOKEN_KEY.name.as_str() =>
+            {
+                // The node has become a token or is not a token anymore, which changes the covered
+                // token of all nodes it is connected to
+                if let Some(node_id) = graph.get_node_annos().get_node_id_from_name(node_name)? {
+                    index.calculate_invalidated_nodes_by_coverage(graph, node_id)?;
+                }
+            }
+            _ => {}
+        }
         if let UpdateEvent::AddEdge {
             component_type,
             component_name,
-- 
2.43.0


From 89fd37f12626bf8b02d77b1b64fecbc57e080e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 04/53] fix: update the token index of all nodes covering token
 whose order changed

---
 graphannis/src/annis/db/aql/model.rs | 43 ++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 6b8d93a..4835a2b 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -176,6 +176,8 @@ pub struct AQLUpdateGraphIndex {
     graph_without_nodes: bool,
     invalid_nodes: DiskMap<NodeID, bool>,
     text_coverage_components: FxHashSet<AnnotationComponent>,
+    /// Token whose position relative to its successors in the text has been changed.
+    reordered_token: FxHashSet<NodeID>,
 }
 
 impl AQLUpdateGraphIndex {
@@ -222,6 +224,27 @@ impl AQLUpdateGraphIndex {
         Ok(())
     }
 
+    /// If the order of token is changed, this also affects the nodes which cover token that are
+    /// only indirectly connected by a changed ordering edge.
+    fn calculate_invalidated_nodes_by_order(
+        &mut self,
+        graph: &AnnotationGraph,
+        gs_order: &dyn GraphStorage,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        let mut visited = FxHashSet::default();
+        for token in std::mem::take(&mut self.reordered_token) {
+            for previous_token in
+                gs_order.find_connected_inverse(token, 0, std::ops::Bound::Unbounded)
+            {
+                let previous_token = previous_token?;
+                if visited.insert(previous_token) {
+                    self.calculate_invalidated_nodes_by_coverage(graph, previous_token)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn clear_left_right_token(
         &self,
         graph: &mut AnnotationGraph,
@@ -461,6 +484,7 @@ impl ComponentType for AnnotationComponentType {
             graph_without_nodes,
             text_coverage_components,
             invalid_nodes,
+            reordered_token: FxHashSet::default(),
         })
     }
 
@@ -476,6 +500,13 @@ impl ComponentType for AnnotationComponentType {
                 if !index.invalid_nodes.contains_key(&existing_node_id)? {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
+                for c in graph.get_all_components(Some(AnnotationComponentType::Ordering), None) {
+                    if let Some(gs) = graph.get_graphstorage_as_ref(&c) {
+                        for previous_token in gs.get_ingoing_edges(existing_node_id) {
+                            index.reordered_token.insert(previous_token?);
+                        }
+                    }
+                }
             }
             UpdateEvent::DeleteEdge {
                 source_node,
@@ -495,6 +526,9 @@ impl ComponentType for AnnotationComponentType {
                         let source = index
                             .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?;
                         index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        if ctype == AnnotationComponentType::Ordering {
+                            index.reordered_token.insert(source);
+                        }
                     }
 
                     if ctype == AnnotationComponentType::Ordering {
@@ -571,6 +605,9 @@ impl ComponentType for AnnotationComponentType {
                         index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?;
 
                     index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    if ctype == AnnotationComponentType::Ordering {
+                        index.reordered_token.insert(source);
+                    }
                 }
 
                 if ctype == AnnotationComponentType::Ordering {
@@ -602,8 +639,6 @@ impl ComponentType for AnnotationComponentType {
                 index.invalid_nodes.insert(m.node, true)?;
             }
         }
-        index.invalid_nodes.compact()?;
-
         // Re-index the inherited coverage component.
         // To make this operation fast, we need to optimize the order component first
         let order_component = AnnotationComponent::new(
@@ -620,6 +655,10 @@ impl ComponentType for AnnotationComponentType {
         }
         graph.optimize_gs_impl(&order_component)?;
         if let Some(gs_order) = graph.get_graphstorage(&order_component) {
+            if !index.graph_without_nodes {
+                index.calculate_invalidated_nodes_by_order(graph, gs_order.as_ref())?;
+            }
+            index.invalid_nodes.compact()?;
             index.reindex_inherited_coverage(graph, gs_order)?;
         }
 
-- 
2.43.0


From 904d840e8e9ec558dacb54338ab95447b5ad3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 05/53] fix: detect cycles that are not reachable from any root
 node of a component

---
 core/src/graph/storage/adjacencylist.rs  | 6 ++++++
 core/src/graph/storage/disk_adjacency.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6b23a55..c53e4c1 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -429,6 +429,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
         }
 
         let mut number_of_visits = 0;
+        let mut reached_nodes: BTreeSet<NodeID> = BTreeSet::new();
         if roots.is_empty() && !self.edges.is_empty() {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
@@ -438,12 +439,17 @@ impl WriteableGraphStorage for AdjacencyListStorage {
                 for step in &mut dfs {
                     let step = step?;
                     number_of_visits += 1;
+                    reached_nodes.insert(step.node);
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
                 if dfs.is_cyclic() {
                     stats.cyclic = true;
                 }
             }
+            // nodes which are not reachable from any root node must be part of (or behind) a cycle
+            if reached_nodes.len() < stats.nodes {
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index d3e9924..9188ca6 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -428,6 +428,7 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
         }
 
         let mut number_of_visits = 0;
+        let mut reached_nodes: BTreeSet<NodeID> = BTreeSet::new();
         if roots.is_empty() && !edges_empty {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
@@ -437,12 +438,17 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
                 for step in &mut dfs {
                     let step = step?;
                     number_of_visits += 1;
+                    reached_nodes.insert(step.node);
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
                 if dfs.is_cyclic() {
                     stats.cyclic = true;
                 }
             }
+            // nodes which are not reachable from any root node must be part of (or behind) a cycle
+            if reached_nodes.len() < stats.nodes {
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
-- 
2.43.0


From 4489f0ff5866ebbcdba544db0c643a68a155646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 06/53] fix: distances and distance ranges of all graph
 storages follow the definition

---
 core/src/annostorage/inmemory.rs         |  1 +
 core/src/dfs.rs                          | 32 ++++++++++++++++++++++++
 core/src/graph/storage/adjacencylist.rs  | 13 ++--------
 core/src/graph/storage/disk_adjacency.rs | 14 ++---------
 core/src/graph/storage/disk_path.rs      |  1 +
 core/src/graph/storage/linear.rs         | 27 +++++++++++++-------
 core/src/graph/storage/prepost.rs        | 14 ++++++++++-
 7 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index b97abed..de092af 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -64,6 +64,7 @@ impl<T: Ord + Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + De
         self.histogram_bounds.clear();
         self.largest_item = None;
         self.anno_values.clear();
+        self.total_number_of_annos = 0;
     }
 
     fn create_sparse_anno(&mut self, orig: Annotation) -> Result<SparseAnnotation> {
diff --git a/core/src/dfs.rs b/core/src/dfs.rs
index 211720b..5cf32d8 100644
--- a/core/src/dfs.rs
+++ b/core/src/dfs.rs
@@ -144,3 +144,35 @@ impl Iterator for CycleSafeDFS<'_> {
         result
     }
 }
+
+/// Get the length of the shortest path from `source` to `target` using breadth first search.
+pub(crate) fn shortest_distance(
+    container: &dyn EdgeContainer,
+    source: NodeID,
+    target: NodeID,
+) -> Result<Option<usize>> {
+    if source == target {
+        return Ok(Some(0));
+    }
+    let mut visited = FxHashSet::default();
+    visited.insert(source);
+    let mut current_level = vec![source];
+    let mut distance = 0;
+    while !current_level.is_empty() {
+        distance += 1;
+        let mut next_level = Vec::new();
+        for node in current_level {
+            for out in container.get_outgoing_edges(node) {
+                let out = out?;
+                if out == target {
+                    return Ok(Some(distance));
+                }
+                if visited.insert(out) {
+                    next_level.push(out);
+                }
+            }
+        }
+        current_level = next_level;
+    }
+    Ok(None)
+}
diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index c53e4c1..4c83352 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -2,7 +2,7 @@ use crate::{
     annostorage::{
         AnnotationStorage, EdgeAnnotationStorage, NodeAnnotationStorage, inmemory::AnnoStorageImpl,
     },
-    dfs::CycleSafeDFS,
+    dfs::{CycleSafeDFS, shortest_distance},
     errors::Result,
     types::{AnnoKey, Annotation, Edge, NodeID},
 };
@@ -207,16 +207,7 @@ impl GraphStorage for AdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_distance(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index 9188ca6..62e18c1 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -2,7 +2,7 @@ use super::*;
 
 use crate::{
     annostorage::{NodeAnnotationStorage, ondisk::AnnoStorageImpl},
-    dfs::CycleSafeDFS,
+    dfs::{CycleSafeDFS, shortest_distance},
     errors::Result,
     util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy},
 };
@@ -216,17 +216,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_distance(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a5a668c..d1ea604 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -280,6 +280,7 @@ impl GraphStorage for DiskPathStorage {
         orig: &dyn GraphStorage,
     ) -> Result<()> {
         self.inverse_edges.clear();
+        self.annos.clear()?;
 
         // Create a new file which is large enough to contain the paths for all nodes.
         let max_node_id = orig
diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index a5a6bca..5294124 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -206,6 +206,10 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+        if min_distance == 0 && !self.node_to_pos.contains_key(&source) {
+            // Nodes outside of this component are only connected to themselves
+            return Box::new(std::iter::once(Ok(source)));
+        }
         if let Some(start_pos) = self.node_to_pos.get(&source)
             && let Some(chain) = self.node_chains.get(&start_pos.root)
             && let Some(offset) = start_pos.pos.to_usize()
@@ -234,6 +238,10 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+        if min_distance == 0 && !self.node_to_pos.contains_key(&source) {
+            // Nodes outside of this component are only connected to themselves
+            return Box::new(std::iter::once(Ok(source)));
+        }
         if let Some(start_pos) = self.node_to_pos.get(&source)
             && let Some(chain) = self.node_chains.get(&start_pos.root)
             && let Some(offset) = start_pos.pos.to_usize()
@@ -241,17 +249,15 @@ where
             let max_distance = match max_distance {
                 std::ops::Bound::Unbounded => 0,
                 std::ops::Bound::Included(max_distance) => offset.saturating_sub(max_distance),
-                std::ops::Bound::Excluded(max_distance) => offset.saturating_sub(max_distance + 1),
+                std::ops::Bound::Excluded(max_distance) => (offset + 1).saturating_sub(max_distance),
             };
 
-            if let Some(min_distance) = offset.checked_sub(min_distance) {
-                if min_distance < chain.len() && max_distance <= min_distance {
-                    // return all entries in the chain between min_distance..max_distance (inclusive)
-                    return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
-                } else if max_distance < chain.len() {
-                    // return all entries in the chain between min_distance..max_distance
-                    return Box::new(chain[max_distance..chain.len()].iter().map(|n| Ok(*n)));
-                }
+            if let Some(min_distance) = offset.checked_sub(min_distance)
+                && min_distance < chain.len()
+                && max_distance <= min_distance
+            {
+                // return all entries in the chain between min_distance..max_distance (inclusive)
+                return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
             }
         }
         Box::new(std::iter::empty())
@@ -282,6 +288,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target {
+            return Ok(min_distance == 0);
+        }
         if let (Some(source_pos), Some(target_pos)) =
             (self.node_to_pos.get(&source), self.node_to_pos.get(&target))
             && source_pos.root == target_pos.root
diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 54c382b..d50f90b 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -285,6 +285,9 @@ where
                 .filter(move |n| visited.insert(*n))
                 .map(Ok);
             Box::new(it)
+        } else if min_distance == 0 {
+            // Nodes outside of this component are only connected to themselves
+            Box::new(std::iter::once(Ok(node)))
         } else {
             Box::new(std::iter::empty())
         }
@@ -384,6 +387,9 @@ where
                 .filter(move |n| visited.insert(*n))
                 .map(Ok);
             Box::new(it)
+        } else if min_distance == 0 {
+            // Nodes outside of this component are only connected to themselves
+            Box::new(std::iter::once(Ok(start_node)))
         } else {
             Box::new(std::iter::empty())
         }
@@ -432,6 +438,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target {
+            return Ok(min_distance == 0);
+        }
         if let (Some(order_source), Some(order_target)) = (
             self.node_to_order.get(&source),
             self.node_to_order.get(&target),
@@ -453,7 +462,10 @@ where
                             && source_level <= target_level
                         {
                             let diff_level = target_level - source_level;
-                            return Ok(min_distance <= diff_level && diff_level <= max_distance);
+                            // There can be other paths with a different length
+                            if min_distance <= diff_level && diff_level <= max_distance {
+                                return Ok(true);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From df1ac9f7229c41f7e3f34133d538045a2fe5864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 07/53] fix: DiskMap::contains_key() reported deleted entries
 of the temporary disk table as existing

---
 core/src/util/disk_collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index e1b1996..c865e89 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -161,9 +161,10 @@ where
 
         // Check C1 (BTree disk index)
         if let Some(c1) = &self.c1
-            && c1.contains_key(key)?
+            && let Some(value) = c1.get(key)?
         {
-            return Ok(true);
+            // The entry can be a tombstone for an explicitly deleted value
+            return Ok(value.is_some());
         }
 
         // Use a iterator on the single disk to check if there is an entry with this, without getting the value.
-- 
2.43.0


From f04257c94df183be60582c8f93acb861dce37a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 08/53] fix: ranges of a DiskMap starting in a gap between two
 table blocks returned nothing

---
 core/src/util/disk_collections.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index c865e89..aabb195 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -568,6 +568,25 @@ where
     }
 }
 
+/// Position the iterator at the first entry whose key is not smaller than the given key.
+/// The iterator is invalid if there is no such entry.
+///
+/// [TableIterator::seek] only considers a single block of the table and does not find
+/// an entry if all entries of this block are smaller than the key. In this case, the
+/// wanted entry is the first one of the next block.
+fn seek_to_first_not_smaller(table_it: &mut TableIterator, key: &[u8]) {
+    table_it.seek(key);
+    if !table_it.valid() {
+        // Restart at one of the last smaller entries
+        if !table_it.prev() {
+            table_it.seek_to_first();
+        }
+        while table_it.current_key().is_some_and(|k| k < key) {
+            table_it.advance();
+        }
+    }
+}
+
 /// An iterator implementation for the case that there is only a single disk-table and no C0
 struct SimplifiedRange<K, V> {
     range_start: Bound<KeyVec>,
@@ -603,7 +622,7 @@ where
                 let mut key = Vec::default();
                 let mut value = Vec::default();
 
-                table_it.seek(start);
+                seek_to_first_not_smaller(&mut table_it, start);
 
                 if table_it.valid() && table_it.current(&mut key, &mut value) {
                     let key: &[u8] = &key;
@@ -644,7 +663,7 @@ where
                 let mut key: Vec<u8> = Vec::default();
                 let mut value = Vec::default();
 
-                table_it.seek(start_bound);
+                seek_to_first_not_smaller(&mut table_it, start_bound);
                 if table_it.valid() && table_it.current(&mut key, &mut value) {
                     let key: &[u8] = &key;
                     if key == start_bound {
-- 
2.43.0


From a57980afb231f2e13e6ea93f59cc33d84b36ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 09/53] fix: searches in the on-disk annotation storage return
 exactly the matching items

Replacing a value left the old value searchable, values or namespaces
starting with the largest code point, values containing NUL, edges with the
largest node ID and regular expressions whose common prefix is no complete
UTF-8 string were not found (or found for other values), and
get_all_values() sorted the least frequent value first.
---
 core/src/annostorage/inmemory.rs |   7 +-
 core/src/annostorage/ondisk.rs   | 124 ++++++++++++++++++++-----------
 2 files changed, 81 insertions(+), 50 deletions(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index de092af..e295ed2 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -505,14 +505,11 @@ where
                 AnnoKey {
                     name: name.into(),
                     ns: String::default(),
-                }..AnnoKey {
-                    name: name.into(),
-                    ns: std::char::MAX.to_string(),
-                },
+                }..,
             ),
         };
         let mut result = 0;
-        for (_anno_key, anno_size) in qualified_keys {
+        for (_anno_key, anno_size) in qualified_keys.take_while(|(k, _)| k.name == name) {
             result += anno_size;
         }
         Ok(result)
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d6b13d5..484e1e8 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -6,8 +6,8 @@ use crate::graph::NODE_NAME_KEY;
 use crate::serializer::{FixedSizeKeySerializer, KeySerializer};
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::disk_collections::{DiskMap, EvictionStrategy};
-use crate::{try_as_boxed_iter, util};
-use core::ops::Bound::*;
+use crate::util;
+use core::ops::Bound::{self, *};
 use itertools::Itertools;
 use rand::seq::IteratorRandom;
 use regex_syntax::Parser;
@@ -93,6 +93,27 @@ fn create_by_anno_qname_key<T: FixedSizeKeySerializer>(
     result
 }
 
+/// Create a range which includes exactly the `by_anno_qname` keys with the given
+/// annotation key symbol and whose remaining bytes start with `prefix`.
+fn create_by_anno_qname_prefix_range(
+    anno_key_symbol: usize,
+    prefix: &[u8],
+) -> (Bound<ByteBuf>, Bound<ByteBuf>) {
+    let mut lower_bound: ByteBuf = ByteBuf::from(anno_key_symbol.create_key().to_vec());
+    lower_bound.extend(prefix);
+
+    // The first byte sequence larger than all sequences with this prefix is
+    // created by incrementing the last byte that can be incremented.
+    let mut upper_bound = lower_bound.clone();
+    while let Some(last) = upper_bound.pop() {
+        if last < u8::MAX {
+            upper_bound.push(last + 1);
+            return (Included(lower_bound), Excluded(upper_bound));
+        }
+    }
+    (Included(lower_bound), Unbounded)
+}
+
 impl<T> AnnoStorageImpl<T>
 where
     T: FixedSizeKeySerializer
@@ -196,19 +217,14 @@ where
             .into_iter()
             .filter_map(move |k| self.anno_key_symbols.get_symbol(&k))
             .flat_map(move |anno_key_symbol| {
-                let lower_bound_value = if let Some(value) = &value { value } else { "" };
-                let lower_bound =
-                    create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, lower_bound_value);
-
-                let upper_bound_value = if let Some(value) = &value {
-                    Cow::Borrowed(value)
+                if let Some(value) = &value {
+                    self.get_by_anno_qname_value_range(anno_key_symbol, value)
                 } else {
-                    Cow::Owned(std::char::MAX.to_string())
-                };
-
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_bound_value);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                    Box::new(
+                        self.by_anno_qname
+                            .range(create_by_anno_qname_prefix_range(anno_key_symbol, &[])),
+                    )
+                }
             })
             .fuse()
             .map(move |item| match item {
@@ -232,7 +248,7 @@ where
         &'a self,
         namespace: Option<&str>,
         name: &str,
-        prefix: String,
+        prefix: Vec<u8>,
     ) -> Box<dyn Iterator<Item = Result<(T, Arc<AnnoKey>)>> + 'a>
     where
         T: FixedSizeKeySerializer + Send + Sync + PartialOrd,
@@ -254,13 +270,8 @@ where
             .into_iter()
             .filter_map(move |k| self.anno_key_symbols.get_symbol(&k))
             .flat_map(move |anno_key_symbol| {
-                let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, &prefix);
-
-                let mut upper_val = prefix.clone();
-                upper_val.push(std::char::MAX);
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_val);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                self.by_anno_qname
+                    .range(create_by_anno_qname_prefix_range(anno_key_symbol, &prefix))
             })
             .fuse()
             .map(move |item| match item {
@@ -321,17 +332,33 @@ where
         Ok(result)
     }
 
+    /// Get all entries of the `by_anno_qname` tree with exactly this value.
+    fn get_by_anno_qname_value_range<'a>(
+        &'a self,
+        anno_key_symbol: usize,
+        value: &str,
+    ) -> Box<dyn Iterator<Item = Result<(ByteBuf, bool)>> + 'a> {
+        let mut prefix = value.as_bytes().to_vec();
+        prefix.push(0);
+        // A longer value which contains the separator would have the same
+        // prefix, but a different key length.
+        let key_size = std::mem::size_of::<usize>() + prefix.len() + T::key_size();
+        Box::new(
+            self.by_anno_qname
+                .range(create_by_anno_qname_prefix_range(anno_key_symbol, &prefix))
+                .filter_ok(move |(data, _)| data.len() == key_size),
+        )
+    }
+
     fn get_by_anno_qname_range<'a>(
         &'a self,
         anno_key: &AnnoKey,
     ) -> Box<dyn Iterator<Item = Result<(ByteBuf, bool)>> + 'a> {
         if let Some(anno_key_symbol) = self.anno_key_symbols.get_symbol(anno_key) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, "");
-
-            let upper_bound =
-                create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &std::char::MAX.to_string());
-
-            Box::new(self.by_anno_qname.range(lower_bound..upper_bound))
+            Box::new(
+                self.by_anno_qname
+                    .range(create_by_anno_qname_prefix_range(anno_key_symbol, &[])),
+            )
         } else {
             Box::from(std::iter::empty())
         }
@@ -364,8 +391,24 @@ where
             .largest_item
             .as_ref()
             .is_none_or(|largest_item| item <= *largest_item);
-        let already_existed =
-            item_smaller_than_largest && self.by_container.contains_key(&by_container_key)?;
+        let existing_value = if item_smaller_than_largest {
+            self.by_container
+                .get(&by_container_key)?
+                .map(|v| v.into_owned())
+        } else {
+            None
+        };
+        let already_existed = existing_value.is_some();
+        if let Some(existing_value) = existing_value
+            && existing_value != anno.val
+        {
+            // The item must not be found by its previous value anymore
+            self.by_anno_qname.remove(&create_by_anno_qname_key(
+                item.clone(),
+                anno_key_symbol,
+                &existing_value,
+            ))?;
+        }
         self.by_container
             .insert(by_container_key, anno.val.clone())?;
 
@@ -661,14 +704,11 @@ where
                 AnnoKey {
                     name: name.into(),
                     ns: String::default(),
-                }..AnnoKey {
-                    name: name.into(),
-                    ns: std::char::MAX.to_string(),
-                },
+                }..,
             ),
         };
         let mut result = 0;
-        for (_anno_key, anno_size) in qualified_keys {
+        for (_anno_key, anno_size) in qualified_keys.take_while(|(k, _)| k.name == name) {
             result += anno_size;
         }
         Ok(result)
@@ -757,10 +797,9 @@ where
                 let prefix_bytes = regex_literal_sequence
                     .map(|seq| Vec::from(seq.longest_common_prefix().unwrap_or_default()))
                     .unwrap_or_default();
-                let prefix = try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes));
 
                 let it = self
-                    .matching_items_by_prefix(namespace, name, prefix.to_string())
+                    .matching_items_by_prefix(namespace, name, prefix_bytes)
                     .map(move |item| match item {
                         Ok((node, anno_key)) => {
                             let value = self.get_value_for_item(&node, &anno_key)?;
@@ -1033,6 +1072,7 @@ where
             values_with_count.sort();
             let result = values_with_count
                 .into_iter()
+                .rev()
                 .map(|(_count, val)| val)
                 .collect();
             Ok(result)
@@ -1169,10 +1209,7 @@ where
 impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
     fn get_node_id_from_name(&self, node_name: &str) -> Result<Option<NodeID>> {
         if let Some(node_name_symbol) = self.anno_key_symbols.get_symbol(&NODE_NAME_KEY) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
-            let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
-
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let mut results = self.get_by_anno_qname_value_range(node_name_symbol, node_name);
             if let Some(item) = results.next() {
                 let (data, _) = item?;
                 let item_id = NodeID::parse_key(&data[data.len() - NodeID::key_size()..])?;
@@ -1184,10 +1221,7 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
 
     fn has_node_name(&self, node_name: &str) -> Result<bool> {
         if let Some(node_name_symbol) = self.anno_key_symbols.get_symbol(&NODE_NAME_KEY) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
-            let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
-
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let mut results = self.get_by_anno_qname_value_range(node_name_symbol, node_name);
             return Ok(results.next().is_some());
         }
         Ok(false)
-- 
2.43.0


From 04361ebb504aa1e19d194c116132119b22734b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 10/53] fix: cost estimates of the query planner overflowed for
 some distance ranges and large plans

---
 .../src/annis/db/aql/operators/edge_op.rs     | 26 +++++++++----------
 graphannis/src/annis/db/aql/operators/near.rs |  2 +-
 .../src/annis/db/aql/operators/precedence.rs  |  3 ++-
 graphannis/src/annis/db/exec/filter.rs        |  8 ++++--
 graphannis/src/annis/db/exec/mod.rs           |  6 ++---
 graphannis/src/annis/db/exec/nestedloop.rs    |  4 +--
 graphannis/src/annis/db/exec/nodesearch.rs    | 17 ++++++------
 .../src/annis/db/exec/parallel/nestedloop.rs  |  4 +--
 graphannis/src/annis/operator.rs              | 24 ++++++++---------
 9 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index c57eddd..9b994c4 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -388,7 +388,7 @@ impl BinaryOperatorBase for BaseEdgeOp {
                     } else {
                         std::cmp::min(max_dist, stats.max_depth) as i32
                     };
-                    let min_path_length = std::cmp::max(0, self.spec.dist.min_dist() - 1) as i32;
+                    let min_path_length = self.spec.dist.min_dist().saturating_sub(1) as i32;
 
                     let reachable_max = reachable_by_path_length(stats, max_path_length);
                     let reachable_min = reachable_by_path_length(stats, min_path_length);
@@ -437,13 +437,12 @@ impl BinaryOperatorBase for BaseEdgeOp {
                                 ns.as_ref().map(String::as_str),
                                 name,
                             )?;
-                            total
-                                - anno_storage.guess_max_count(
-                                    ns.as_ref().map(String::as_str),
-                                    name,
-                                    val,
-                                    val,
-                                )?
+                            total.saturating_sub(anno_storage.guess_max_count(
+                                ns.as_ref().map(String::as_str),
+                                name,
+                                val,
+                                val,
+                            )?)
                         }
                         EdgeAnnoSearchSpec::RegexValue { val, ns, name } => anno_storage
                             .guess_max_count_regex(ns.as_ref().map(String::as_str), name, val)?,
@@ -452,12 +451,11 @@ impl BinaryOperatorBase for BaseEdgeOp {
                                 ns.as_ref().map(String::as_str),
                                 name,
                             )?;
-                            total
-                                - anno_storage.guess_max_count_regex(
-                                    ns.as_ref().map(String::as_str),
-                                    name,
-                                    val,
-                                )?
+                            total.saturating_sub(anno_storage.guess_max_count_regex(
+                                ns.as_ref().map(String::as_str),
+                                name,
+                                val,
+                            )?)
                         }
                     };
                     let g_sel: f64 = (guessed_count as f64) / (num_of_annos as f64);
diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 1a80652..c274d5f 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,7 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist - self.spec.dist.min_dist() + 1);
+            let num_of_descendants = 2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 4e35b85..0aec913 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -317,7 +317,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = max_possible_dist - self.spec.dist.min_dist() + 1;
+            let num_of_descendants =
+                max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1;
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 84bd555..ffd4663 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -51,7 +51,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_binary_outputsize(&op_entry.op, orig_cost.output)?,
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
@@ -95,7 +97,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_unary_outputsize(op_entry.op.as_ref(), orig_cost.output),
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
diff --git a/graphannis/src/annis/db/exec/mod.rs b/graphannis/src/annis/db/exec/mod.rs
index fbd1f31..c260680 100644
--- a/graphannis/src/annis/db/exec/mod.rs
+++ b/graphannis/src/annis/db/exec/mod.rs
@@ -40,7 +40,7 @@ fn calculate_outputsize<Op: BinaryOperatorBase + ?Sized>(
 ) -> Result<usize> {
     let output = match op.estimation_type()? {
         EstimationType::Selectivity(selectivity) => {
-            let num_tuples = (cost_lhs.output * cost_rhs.output) as f64;
+            let num_tuples = cost_lhs.output as f64 * cost_rhs.output as f64;
             if let Some(edge_sel) = op.edge_anno_selectivity()? {
                 (num_tuples * selectivity * edge_sel).round() as usize
             } else {
@@ -121,8 +121,8 @@ impl ExecutionNodeDesc {
                 Some(CostEstimate {
                     output,
                     intermediate_sum: processed_in_step
-                        + cost_lhs.intermediate_sum
-                        + cost_rhs.intermediate_sum,
+                        .saturating_add(cost_lhs.intermediate_sum)
+                        .saturating_add(cost_rhs.intermediate_sum),
                     processed_in_step,
                 })
             } else {
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d4cdcff..d596660 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -41,10 +41,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 1cc9e99..a848ff0 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -641,13 +641,12 @@ impl<'a> NodeSearch<'a> {
                         let total = db
                             .get_node_annos()
                             .number_of_annotations_by_name(qname.0.as_deref(), &qname.1)?;
-                        total
-                            - db.get_node_annos().guess_max_count(
-                                qname.0.as_deref(),
-                                &qname.1,
-                                &val,
-                                &val,
-                            )?
+                        total.saturating_sub(db.get_node_annos().guess_max_count(
+                            qname.0.as_deref(),
+                            &qname.1,
+                            &val,
+                            &val,
+                        )?)
                     }
                     ValueSearch::Any => db
                         .get_node_annos()
@@ -751,7 +750,7 @@ impl<'a> NodeSearch<'a> {
                 // negation (all matches) instead.
                 total
             } else {
-                total - est_for_regex
+                total.saturating_sub(est_for_regex)
             }
         } else {
             db.get_node_annos()
@@ -905,7 +904,7 @@ impl<'a> NodeSearch<'a> {
                         &val,
                     )?
                 };
-                total_count - positive_count
+                total_count.saturating_sub(positive_count)
             }
             ValueSearch::Any => db
                 .get_node_annos()
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index 98d4362..ac6fc72 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -49,10 +49,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index a4a8614..96fc47b 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -90,13 +90,12 @@ impl EdgeAnnoSearchSpec {
             EdgeAnnoSearchSpec::NotExactValue { ns, name, val } => {
                 let total = anno_storage
                     .number_of_annotations_by_name(ns.as_ref().map(String::as_str), name)?;
-                let result = total
-                    - anno_storage.guess_max_count(
-                        ns.as_ref().map(String::as_str),
-                        name,
-                        val,
-                        val,
-                    )?;
+                let result = total.saturating_sub(anno_storage.guess_max_count(
+                    ns.as_ref().map(String::as_str),
+                    name,
+                    val,
+                    val,
+                )?);
                 Ok(result)
             }
             EdgeAnnoSearchSpec::RegexValue { ns, name, val } => Ok(
@@ -105,12 +104,11 @@ impl EdgeAnnoSearchSpec {
             EdgeAnnoSearchSpec::NotRegexValue { ns, name, val } => {
                 let total = anno_storage
                     .number_of_annotations_by_name(ns.as_ref().map(String::as_str), name)?;
-                let result = total
-                    - anno_storage.guess_max_count_regex(
-                        ns.as_ref().map(String::as_str),
-                        name,
-                        val,
-                    )?;
+                let result = total.saturating_sub(anno_storage.guess_max_count_regex(
+                    ns.as_ref().map(String::as_str),
+                    name,
+                    val,
+                )?);
                 Ok(result)
             }
         }
-- 
2.43.0


From 22571fa37d26824cb60817b3280868690fbae407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 11/53] fix: the inverse of the == and != operators did not
 swap the node descriptions of its operands

---
 graphannis/src/annis/db/aql/operators/equal_value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 77e5920..a66b947 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -167,8 +167,8 @@ impl BinaryOperatorBase for EqualValue<'_> {
     ) -> Result<Option<BinaryOperator<'b>>> {
         let inverse = BinaryOperator::Index(Box::from(EqualValue {
             node_annos: graph.get_node_annos(),
-            spec_left: self.spec_left.clone(),
-            spec_right: self.spec_right.clone(),
+            spec_left: self.spec_right.clone(),
+            spec_right: self.spec_left.clone(),
             negated: self.negated,
         }));
         Ok(Some(inverse))
-- 
2.43.0


From ebffb0565863175b0cddaf03673c8b26a3a231c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 12/53] fix: texts with only one token were not found by the
 any-token search when other texts have more

---
 graphannis/src/annis/db/aql/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4835a2b..954f5b4 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -713,8 +713,8 @@ impl ComponentType for AnnotationComponentType {
 
                 if !token_helper.has_outgoing_coverage_edges(n)? {
                     all_token_in_order_component = all_token_in_order_component
-                        && ordering_gs.has_outgoing_edges(n)?
-                        || ordering_gs.has_ingoing_edges(n)?;
+                        && (ordering_gs.has_outgoing_edges(n)?
+                            || ordering_gs.has_ingoing_edges(n)?);
                     // Update the token counter
                     base_token_count += 1;
                 }
-- 
2.43.0


From 62c827d547a98225c2b7bd54e6cffd15574f4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 13/53] fix: segmentation distances searched by index also
 returned nodes outside of the segmentation

---
 graphannis/src/annis/db/aql/operators/near.rs   | 17 ++++++++++++++---
 .../src/annis/db/aql/operators/precedence.rs    | 14 ++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index c274d5f..950ced6 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,8 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
+            let num_of_descendants =
+                2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
@@ -217,7 +218,12 @@ impl BinaryOperatorIndex for Near<'_> {
                 .fuse();
             let it = connected
                 .map_ok(|t| {
-                    let it_aligned = self.tok_helper.get_gs_left_token().get_ingoing_edges(t);
+                    // (nodes of a segmentation layer are only connected by their own ordering)
+                    let it_aligned = if self.spec.segmentation.is_none() {
+                        self.tok_helper.get_gs_left_token().get_ingoing_edges(t)
+                    } else {
+                        Box::new(std::iter::empty())
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
@@ -245,7 +251,12 @@ impl BinaryOperatorIndex for Near<'_> {
             let it = connected
                 // find all right aligned nodes for this token and add it together with the token itself
                 .map_ok(move |t| {
-                    let it_aligned = self.tok_helper.get_gs_right_token().get_ingoing_edges(t);
+                    // (nodes of a segmentation layer are only connected by their own ordering)
+                    let it_aligned = if self.spec.segmentation.is_none() {
+                        self.tok_helper.get_gs_right_token().get_ingoing_edges(t)
+                    } else {
+                        Box::new(std::iter::empty())
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 0aec913..398239f 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -233,7 +233,12 @@ impl BinaryOperatorIndex for Precedence<'_> {
         let result = connected
             // find all left aligned nodes for this token and add it together with the token itself
             .map_ok(move |t| {
-                let it_aligned = self.gs_left.get_ingoing_edges(t);
+                // (nodes of a segmentation layer are only connected by their own ordering)
+                let it_aligned = if self.spec.segmentation.is_none() {
+                    self.gs_left.get_ingoing_edges(t)
+                } else {
+                    Box::new(std::iter::empty())
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
@@ -352,7 +357,12 @@ impl BinaryOperatorIndex for InversePrecedence<'_> {
         let result = token_in_range
             .map_ok(move |t| {
                 // find all right aligned nodes for this token and add it together with the token itself
-                let it_aligned = self.gs_right.get_ingoing_edges(t);
+                // (nodes of a segmentation layer are only connected by their own ordering)
+                let it_aligned = if self.spec.segmentation.is_none() {
+                    self.gs_right.get_ingoing_edges(t)
+                } else {
+                    Box::new(std::iter::empty())
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
-- 
2.43.0


From 852f31e2bf32d34aee265d62987b000976c38373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 14/53] fix: overlap and inclusion missed nodes on the same
 token for disk-based path storages

---
 .../src/annis/db/aql/operators/inclusion.rs   | 45 ++++++++++++++-----
 .../src/annis/db/aql/operators/overlap.rs     |  5 ++-
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/inclusion.rs b/graphannis/src/annis/db/aql/operators/inclusion.rs
index fb6a2cd..ffcc648 100644
--- a/graphannis/src/annis/db/aql/operators/inclusion.rs
+++ b/graphannis/src/annis/db/aql/operators/inclusion.rs
@@ -86,6 +86,36 @@ impl<'a> Inclusion<'a> {
     }
 }
 
+impl Inclusion<'_> {
+    /// Distance between two tokens, which is zero if they are the same.
+    fn token_distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
+        if source == target {
+            Ok(Some(0))
+        } else {
+            Ok(self.gs_order.distance(source, target)?)
+        }
+    }
+
+    /// Check that the tokens are the same or connected with the given maximum distance.
+    fn is_token_connected(
+        &self,
+        source: NodeID,
+        target: NodeID,
+        max_distance: usize,
+    ) -> Result<bool> {
+        if source == target {
+            return Ok(true);
+        }
+        let result = self.gs_order.is_connected(
+            source,
+            target,
+            0,
+            std::ops::Bound::Included(max_distance),
+        )?;
+        Ok(result)
+    }
+}
+
 impl std::fmt::Display for Inclusion<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(f, "_i_")
@@ -103,11 +133,11 @@ impl BinaryOperatorBase for Inclusion<'_> {
             left_right_rhs.1,
         ) {
             // span length of LHS
-            if let Some(l) = self.gs_order.distance(start_lhs, end_lhs)? {
+            if let Some(l) = self.token_distance(start_lhs, end_lhs)? {
                 // path between left-most tokens exists in ORDERING component and has maximum length l
-                if self.gs_order.is_connected(start_lhs, start_rhs, 0, std::ops::Bound::Included(l))?
+                if self.is_token_connected(start_lhs, start_rhs, l)?
                 // path between right-most tokens exists in ORDERING component and has maximum length l
-                && self.gs_order.is_connected(end_rhs, end_lhs, 0, std::ops::Bound::Included(l))?
+                && self.is_token_connected(end_rhs, end_lhs, l)?
                 {
                     return Ok(true);
                 }
@@ -165,7 +195,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
         let left_right_token = try_as_boxed_iter!(self.tok_helper.left_right_token_for(lhs.node));
         if let (Some(start_lhs), Some(end_lhs)) = left_right_token {
             // span length of LHS
-            let l = try_as_boxed_iter!(self.gs_order.distance(start_lhs, end_lhs));
+            let l = try_as_boxed_iter!(self.token_distance(start_lhs, end_lhs));
             if let Some(l) = l {
                 // find each token which is between the left and right border
                 let overlapped_token =
@@ -203,12 +233,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
                                     self.tok_helper.get_gs_right_token().get_outgoing_edges(n);
                                 if let Some(end_n) = end_n.next() {
                                     let end_n = end_n?;
-                                    if self.gs_order.is_connected(
-                                        end_n,
-                                        end_lhs,
-                                        0,
-                                        std::ops::Bound::Included(l),
-                                    )? {
+                                    if self.is_token_connected(end_n, end_lhs, l)? {
                                         // path between right-most tokens exists in ORDERING component
                                         // and has maximum length l
                                         return Ok(Some(n));
diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 5bdf5ec..fd3884d 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -111,9 +111,10 @@ impl BinaryOperatorBase for Overlap<'_> {
         ) {
             // TODO: why not isConnected()? (instead of distance)
             // path between LHS left-most token and RHS right-most token exists in ORDERING component
-            if self.gs_order.distance(start_lhs, end_rhs)?.is_some()
+            // (they can also be the same token)
+            if (start_lhs == end_rhs || self.gs_order.distance(start_lhs, end_rhs)?.is_some())
                 // path between LHS left-most token and RHS right-most token exists in ORDERING component
-                && self.gs_order.distance(start_rhs, end_lhs)?.is_some()
+                && (start_rhs == end_lhs || self.gs_order.distance(start_rhs, end_lhs)?.is_some())
             {
                 return Ok(true);
             }
-- 
2.43.0


From 87b448b1aab53c7d1f176ec9f7529873ab5d74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 15/53] fix: negated operators between two nodes also required
 that the nodes are different

---
 graphannis/src/annis/db/aql/operators/negated_op.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/operators/negated_op.rs b/graphannis/src/annis/db/aql/operators/negated_op.rs
index db88c2f..ca37c2f 100644
--- a/graphannis/src/annis/db/aql/operators/negated_op.rs
+++ b/graphannis/src/annis/db/aql/operators/negated_op.rs
@@ -70,7 +70,9 @@ impl BinaryOperatorBase for NegatedOp<'_> {
     }
 
     fn is_reflexive(&self) -> bool {
-        self.negated_op.is_reflexive()
+        // Only the absence of the relation is required, the operands don't have
+        // to be different if the relation does not hold between them.
+        true
     }
 
     fn estimation_type(&self) -> Result<EstimationType> {
-- 
2.43.0


From cfb4d9c990a215a0e7b1339bf38235e07b77f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 16/53] fix: the difference of nodes required by non-reflexive
 operators depended on the join order

---
 graphannis/src/annis/db/aql/conjunction.rs | 41 ++++++++++++++++++++--
 graphannis/src/annis/db/exec/filter.rs     | 39 ++++++++++++++++++++
 2 files changed, 77 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index dd3d0ac..ad3a14e 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -5,7 +5,7 @@ use super::Config;
 use super::disjunction::Disjunction;
 use crate::AnnotationGraph;
 use crate::annis::db::aql::model::AnnotationComponentType;
-use crate::annis::db::exec::filter::Filter;
+use crate::annis::db::exec::filter::{Filter, NonReflexiveOperands};
 use crate::annis::db::exec::indexjoin::IndexJoin;
 use crate::annis::db::exec::nestedloop::NestedLoop;
 use crate::annis::db::exec::nodesearch::{NodeSearch, NodeSearchSpec};
@@ -102,6 +102,8 @@ struct ExecutionPlanHelper {
     /// Cost estimates for different nodes of the query. The node is determined
     /// by the position of the variable in the conjunction.
     node2cost: BTreeMap<usize, CostEstimate>,
+    /// The operands (node numbers) of all executed non-reflexive operators.
+    non_reflexive: Vec<BinaryOperatorArguments>,
 }
 
 struct AddNodeToExecutionPlanOutput<'a> {
@@ -749,6 +751,14 @@ impl Conjunction {
         spec_idx_left -= self.var_idx_offset;
         spec_idx_right -= self.var_idx_offset;
 
+        if !op.is_reflexive() {
+            helper.non_reflexive.push(BinaryOperatorArguments {
+                left: spec_idx_left,
+                right: spec_idx_right,
+                global_reflexivity: op_spec_entry.args.global_reflexivity,
+            });
+        }
+
         let op_entry = BinaryOperatorEntry {
             op,
             args: BinaryOperatorArguments {
@@ -836,6 +846,7 @@ impl Conjunction {
         let helper = ExecutionPlanHelper {
             node2component: BTreeMap::new(),
             node2cost: BTreeMap::new(),
+            non_reflexive: Vec::default(),
         };
 
         let mut output = AddNodeToExecutionPlanOutput {
@@ -887,11 +898,35 @@ impl Conjunction {
         }
 
         // it must be checked before that all components are connected
-        output.component2exec.into_values().next().ok_or_else(|| {
+        let exec = output.component2exec.into_values().next().ok_or_else(|| {
             GraphAnnisError::ImpossibleSearch(String::from(
                 "could not find execution node for query component",
             ))
-        })
+        })?;
+
+        if self.binary_operators.len() > 1 && !output.helper.non_reflexive.is_empty() {
+            // Depending on their order, the single joins and filters do not
+            // know all nodes the operands must be different from.
+            let node_pos = &exec
+                .get_desc()
+                .ok_or(GraphAnnisError::PlanDescriptionMissing)?
+                .node_pos;
+            let mut operands = Vec::with_capacity(output.helper.non_reflexive.len());
+            for args in output.helper.non_reflexive {
+                operands.push(NonReflexiveOperands {
+                    lhs_idx: *node_pos
+                        .get(&args.left)
+                        .ok_or(GraphAnnisError::LHSOperandNotFound)?,
+                    rhs_idx: *node_pos
+                        .get(&args.right)
+                        .ok_or(GraphAnnisError::RHSOperandNotFound)?,
+                    global_reflexivity: args.global_reflexivity,
+                });
+            }
+            Ok(Box::new(Filter::new_non_reflexive(exec, operands)))
+        } else {
+            Ok(exec)
+        }
     }
 
     fn check_components_connected(&self) -> Result<()> {
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index ffd4663..35b63b8 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -39,6 +39,14 @@ fn calculate_unary_outputsize(op: &dyn UnaryOperator, num_tuples: usize) -> usiz
     std::cmp::max(output, 1)
 }
 
+/// Positions of the operands of a non-reflexive operator in the result tuple.
+pub struct NonReflexiveOperands {
+    pub lhs_idx: usize,
+    pub rhs_idx: usize,
+    /// If true, the operands must be different from all other nodes in the tuple.
+    pub global_reflexivity: bool,
+}
+
 impl<'a> Filter<'a> {
     pub fn new_binary(
         exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
@@ -87,6 +95,37 @@ impl<'a> Filter<'a> {
         })
     }
 
+    /// Create a filter for matches where the operands of non-reflexive
+    /// operators are the same as other nodes in the match.
+    ///
+    /// The joins can only compare the nodes which are already part of the
+    /// tuples they combine. Repeating the check on the complete match makes the
+    /// result independent of the order in which the operators are executed.
+    pub fn new_non_reflexive(
+        exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
+        operands: Vec<NonReflexiveOperands>,
+    ) -> Filter<'a> {
+        let desc = exec.get_desc().cloned();
+        let it = exec.filter_ok(move |tuple| {
+            operands.iter().all(|o| {
+                if o.global_reflexivity {
+                    [o.lhs_idx, o.rhs_idx].into_iter().all(|operand| {
+                        tuple
+                            .iter()
+                            .enumerate()
+                            .all(|(i, m)| i == operand || m.different_to(&tuple[operand]))
+                    })
+                } else {
+                    tuple[o.lhs_idx].different_to(&tuple[o.rhs_idx])
+                }
+            })
+        });
+        Filter {
+            desc,
+            it: Box::new(it),
+        }
+    }
+
     pub fn new_unary(
         exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         idx: usize,
-- 
2.43.0


From 8310ac555f1794bc34fa8b719af7e063880e2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 17/53] fix: the search for source nodes of an operator's
 components was also used when other nodes can match

---
 graphannis/src/annis/db/aql/conjunction.rs    |  4 +++-
 .../src/annis/db/aql/operators/edge_op.rs     | 12 ++++++++++++
 graphannis/src/annis/db/exec/nodesearch.rs    | 19 +++++++++++++++++++
 graphannis/src/annis/operator.rs              |  6 ++++++
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index ad3a14e..cf696c4 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -563,7 +563,9 @@ impl Conjunction {
             if let Some(node_search_cost) = desc.cost.as_ref() {
                 for e in op_spec_entries {
                     let op_spec = &e.op;
-                    if e.args.left - self.var_idx_offset == desc.component_nr {
+                    if e.args.left - self.var_idx_offset == desc.component_nr
+                        && op_spec.is_lhs_source_node()
+                    {
                         // get the necessary components and count the number of nodes in these components
                         let components = op_spec.necessary_components(db);
                         if !components.is_empty() {
diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index 9b994c4..9ceaefd 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -652,6 +652,10 @@ impl BinaryOperatorSpec for DominanceSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn is_lhs_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -704,6 +708,10 @@ impl BinaryOperatorSpec for PointingSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn is_lhs_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -764,6 +772,10 @@ impl BinaryOperatorSpec for PartOfSubCorpusSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn is_lhs_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index a848ff0..acb02ec 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -995,6 +995,8 @@ impl<'a> NodeSearch<'a> {
     ) -> Result<NodeSearch<'a>> {
         let node_search_desc_1 = node_search_desc.clone();
         let node_search_desc_2 = node_search_desc.clone();
+        let mut visited: HashSet<NodeID> = HashSet::default();
+        let mut last_const_output = None;
 
         let it = components
             .into_iter()
@@ -1029,6 +1031,11 @@ impl<'a> NodeSearch<'a> {
                     }
                 },
             )
+            // a node can be part of several components
+            .filter(move |node| match node {
+                Ok(node) => visited.insert(*node),
+                Err(_) => true,
+            })
             .map(move |node| {
                 match node {
                     Ok(node) => {
@@ -1056,6 +1063,18 @@ impl<'a> NodeSearch<'a> {
                             return Ok(None);
                         }
                     }
+                    if let Some(const_output) = &node_search_desc_2.const_output {
+                        // replace the annotation with a constant value and
+                        // only return it once for each node
+                        if last_const_output == Some(m.node) {
+                            return Ok(None);
+                        }
+                        last_const_output = Some(m.node);
+                        return Ok(Some(smallvec![Match {
+                            node: m.node,
+                            anno_key: const_output.clone(),
+                        }]));
+                    }
                     Ok(Some(smallvec![m]))
                 }
                 Err(e) => Err(GraphAnnisError::from(e)),
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index 96fc47b..ddeb2aa 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -236,6 +236,12 @@ pub trait BinaryOperatorSpec: std::fmt::Debug + Send + Sync {
         true
     }
 
+    /// Returns true if any left-hand-side match must be a source node in one of
+    /// the [necessary components](BinaryOperatorSpec::necessary_components).
+    fn is_lhs_source_node(&self) -> bool {
+        false
+    }
+
     #[cfg(test)]
     fn into_any(self: std::sync::Arc<Self>) -> std::sync::Arc<dyn std::any::Any>;
 
-- 
2.43.0


From 8bd5b1f46321edf88fae7d55230bbeb7a24d4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 18/53] fix: distance ranges including zero missed the node
 itself in filters on disk-based path storages

---
 .../src/annis/db/aql/operators/edge_op.rs     | 33 ++++++-------------
 graphannis/src/annis/db/aql/operators/mod.rs  | 17 ++++++++++
 graphannis/src/annis/db/aql/operators/near.rs | 17 ++++++----
 .../src/annis/db/aql/operators/precedence.rs  | 14 ++++----
 4 files changed, 44 insertions(+), 37 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index 9ceaefd..e469926 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -1,4 +1,7 @@
-use crate::annis::db::aql::{model::AnnotationComponentType, operators::RangeSpec};
+use crate::annis::db::aql::{
+    model::AnnotationComponentType,
+    operators::{RangeSpec, is_connected},
+};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::errors::GraphAnnisError;
 use crate::annis::operator::EstimationType::Selectivity;
@@ -287,30 +290,14 @@ impl BinaryOperatorBase for BaseEdgeOp {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
         for e in &self.gs {
             if self.inverse {
-                if e.is_connected(
-                    rhs.node,
-                    lhs.node,
-                    self.spec.dist.min_dist(),
-                    self.spec.dist.max_dist(),
-                )? && check_edge_annotation(
-                    &self.spec.edge_anno,
-                    e.as_ref(),
-                    rhs.node,
-                    lhs.node,
-                )? {
+                if is_connected(e.as_ref(), rhs.node, lhs.node, &self.spec.dist)?
+                    && check_edge_annotation(&self.spec.edge_anno, e.as_ref(), rhs.node, lhs.node)?
+                {
                     return Ok(true);
                 }
-            } else if e.is_connected(
-                lhs.node,
-                rhs.node,
-                self.spec.dist.min_dist(),
-                self.spec.dist.max_dist(),
-            )? && check_edge_annotation(
-                &self.spec.edge_anno,
-                e.as_ref(),
-                lhs.node,
-                rhs.node,
-            )? {
+            } else if is_connected(e.as_ref(), lhs.node, rhs.node, &self.spec.dist)?
+                && check_edge_annotation(&self.spec.edge_anno, e.as_ref(), lhs.node, rhs.node)?
+            {
                 return Ok(true);
             }
         }
diff --git a/graphannis/src/annis/db/aql/operators/mod.rs b/graphannis/src/annis/db/aql/operators/mod.rs
index 1027561..1e0d3bf 100644
--- a/graphannis/src/annis/db/aql/operators/mod.rs
+++ b/graphannis/src/annis/db/aql/operators/mod.rs
@@ -1,3 +1,5 @@
+use crate::{errors::Result, graph::GraphStorage};
+use graphannis_core::types::NodeID;
 use std::fmt;
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -37,6 +39,21 @@ impl fmt::Display for RangeSpec {
     }
 }
 
+/// Check that the target node can be reached from the source node with a path in
+/// the given range. A node is always connected to itself with the distance zero.
+fn is_connected(
+    gs: &dyn GraphStorage,
+    source: NodeID,
+    target: NodeID,
+    dist: &RangeSpec,
+) -> Result<bool> {
+    if source == target && dist.min_dist() == 0 {
+        return Ok(true);
+    }
+    let result = gs.is_connected(source, target, dist.min_dist(), dist.max_dist())?;
+    Ok(result)
+}
+
 mod arity;
 mod edge_op;
 mod equal_value;
diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 950ced6..9ea0959 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -1,4 +1,7 @@
-use crate::annis::db::aql::{model::AnnotationComponentType, operators::RangeSpec};
+use crate::annis::db::aql::{
+    model::AnnotationComponentType,
+    operators::{RangeSpec, is_connected},
+};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
 use crate::annis::db::token_helper::TokenHelper;
@@ -150,16 +153,16 @@ impl BinaryOperatorBase for Near<'_> {
             }
         };
 
-        let result = self.gs_order.is_connected(
+        let result = is_connected(
+            self.gs_order.as_ref(),
             start_end_forward.0,
             start_end_forward.1,
-            self.spec.dist.min_dist(),
-            self.spec.dist.max_dist(),
-        )? || self.gs_order.is_connected(
+            &self.spec.dist,
+        )? || is_connected(
+            self.gs_order.as_ref(),
             start_end_backward.1,
             start_end_backward.0,
-            self.spec.dist.min_dist(),
-            self.spec.dist.max_dist(),
+            &self.spec.dist,
         )?;
         Ok(result)
     }
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 398239f..43665da 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -1,4 +1,4 @@
-use crate::annis::db::aql::operators::RangeSpec;
+use crate::annis::db::aql::operators::{RangeSpec, is_connected};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
 use crate::annis::db::token_helper::TokenHelper;
@@ -161,11 +161,11 @@ impl BinaryOperatorBase for Precedence<'_> {
             }
         };
 
-        let result = self.gs_order.is_connected(
+        let result = is_connected(
+            self.gs_order.as_ref(),
             start_end.0,
             start_end.1,
-            self.spec.dist.min_dist(),
-            self.spec.dist.max_dist(),
+            &self.spec.dist,
         )?;
         Ok(result)
     }
@@ -291,11 +291,11 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
             }
         };
 
-        let result = self.gs_order.is_connected(
+        let result = is_connected(
+            self.gs_order.as_ref(),
             start_end.1,
             start_end.0,
-            self.spec.dist.min_dist(),
-            self.spec.dist.max_dist(),
+            &self.spec.dist,
         )?;
         Ok(result)
     }
-- 
2.43.0


From 765002408f67db79bc930070368e2656dc1d8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 19/53] fix: index joins with == or != also returned
 annotations with the wrong value if a node has several with the same name

---
 .../src/annis/db/aql/operators/equal_value.rs | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index a66b947..0f81d96 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -34,12 +34,13 @@ impl BinaryOperatorSpec for EqualValueSpec {
         db: &'a AnnotationGraph,
         _cost_estimate: Option<(&CostEstimate, &CostEstimate)>,
     ) -> Result<BinaryOperator<'a>> {
-        Ok(BinaryOperator::Index(Box::new(EqualValue {
+        EqualValue {
             node_annos: db.get_node_annos(),
             spec_left: self.spec_left.clone(),
             spec_right: self.spec_right.clone(),
             negated: self.negated,
-        })))
+        }
+        .into_operator()
     }
 
     fn is_binding(&self) -> bool {
@@ -75,6 +76,20 @@ impl std::fmt::Display for EqualValue<'_> {
     }
 }
 
+impl<'a> EqualValue<'a> {
+    fn into_operator(self) -> Result<BinaryOperator<'a>> {
+        // An index join only uses the node of the retrieved matches. If a node can
+        // have several annotations matching the description, it would also
+        // include the ones with a different value.
+        if let Some((None, name)) = EqualValue::anno_def_for_spec(&self.spec_right)
+            && self.node_annos.get_qnames(name)?.len() > 1
+        {
+            return Ok(BinaryOperator::Base(Box::new(self)));
+        }
+        Ok(BinaryOperator::Index(Box::new(self)))
+    }
+}
+
 impl EqualValue<'_> {
     fn value_for_match(&self, m: &Match, spec: &NodeSearchSpec) -> Result<Option<Cow<'_, str>>> {
         match spec {
@@ -165,13 +180,13 @@ impl BinaryOperatorBase for EqualValue<'_> {
         &self,
         graph: &'b AnnotationGraph,
     ) -> Result<Option<BinaryOperator<'b>>> {
-        let inverse = BinaryOperator::Index(Box::from(EqualValue {
+        let inverse = EqualValue {
             node_annos: graph.get_node_annos(),
             spec_left: self.spec_right.clone(),
             spec_right: self.spec_left.clone(),
             negated: self.negated,
-        }));
-        Ok(Some(inverse))
+        };
+        Ok(Some(inverse.into_operator()?))
     }
 }
 
-- 
2.43.0


From 404c631de262e411e78b7ac1f48d55da1d2ef1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 20/53] fix: matches of alternatives with optional or a
 different number of nodes were mapped to the wrong query nodes

---
 graphannis/src/annis/db/aql/conjunction.rs |  22 +++++
 graphannis/src/annis/db/aql/disjunction.rs |  31 +-----
 graphannis/src/annis/db/aql/mod.rs         |  18 +---
 graphannis/src/annis/db/corpusstorage.rs   | 105 ++++++++++-----------
 graphannis/src/annis/db/plan.rs            |  29 +++++-
 5 files changed, 102 insertions(+), 103 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index cf696c4..721ff61 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -396,6 +396,28 @@ impl Conjunction {
         self.include_in_output.contains(variable)
     }
 
+    /// Return true if the node at the given position of this conjunction is
+    /// part of a match output.
+    pub(crate) fn is_node_included_in_output(&self, pos: usize) -> bool {
+        self.nodes
+            .get(pos)
+            .is_some_and(|n| self.is_included_in_output(&n.var))
+    }
+
+    /// Get the position of a variable in the match output of this conjunction.
+    pub(crate) fn get_output_pos(&self, variable: &str) -> Option<usize> {
+        let pos = *self.variables.get(variable)?;
+        if self.is_node_included_in_output(pos) {
+            Some(
+                (0..pos)
+                    .filter(|i| self.is_node_included_in_output(*i))
+                    .count(),
+            )
+        } else {
+            None
+        }
+    }
+
     /// Return the variable name for a node number. The node number is the
     /// position of a node description in the query. In case of a query with
     /// multiple alternatives, this refers to the node number of the whole query and
diff --git a/graphannis/src/annis/db/aql/disjunction.rs b/graphannis/src/annis/db/aql/disjunction.rs
index b9613bf..9ba91c9 100644
--- a/graphannis/src/annis/db/aql/disjunction.rs
+++ b/graphannis/src/annis/db/aql/disjunction.rs
@@ -27,32 +27,9 @@ impl Disjunction {
         result
     }
 
-    pub(crate) fn get_variable_pos(&self, variable: &str) -> Option<usize> {
-        for alt in &self.alternatives {
-            if let Ok(var_pos) = alt.resolve_variable_pos(variable, None) {
-                return Some(var_pos);
-            }
-        }
-        None
-    }
-
-    /// Return the variable name for a node number. The node number is the
-    /// position of an AQL query node in the disjunction.
-    pub(crate) fn get_variable_by_node_nr(&self, node_nr: usize) -> Option<String> {
-        for alt in &self.alternatives {
-            if let Some(var) = alt.get_variable_by_node_nr(node_nr) {
-                return Some(var);
-            }
-        }
-        None
-    }
-
-    pub(crate) fn is_included_in_output(&self, variable: &str) -> bool {
-        for alt in &self.alternatives {
-            if alt.is_included_in_output(variable) {
-                return true;
-            }
-        }
-        false
+    pub(crate) fn contains_variable(&self, variable: &str) -> bool {
+        self.alternatives
+            .iter()
+            .any(|alt| alt.resolve_variable_pos(variable, None).is_ok())
     }
 }
diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index fa8ead0..dfaa29e 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -78,22 +78,8 @@ pub fn execute_query_on_graph<'a>(
     let timeout = TimeoutCheck::new(timeout);
 
     let config = Config { use_parallel_joins };
-    let it = ExecutionPlan::from_disjunction(query, graph, &config, timeout)?
-        .map_ok(|mg| {
-            // Rewrite match group to only include nodes that are included in the query
-            // check if query node actually should be included
-            let mut new_match_group = MatchGroup::with_capacity(mg.len());
-            for (node_nr, m) in mg.into_iter().enumerate() {
-                let include_in_output = query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| query.is_included_in_output(&var));
-                if include_in_output {
-                    new_match_group.push(m);
-                }
-            }
-            new_match_group
-        })
-        .unique_by(move |mg| {
+    let it =
+        ExecutionPlan::from_disjunction(query, graph, &config, timeout)?.unique_by(move |mg| {
             // Map an error to an empty match group
             match mg {
                 Ok(mg) => mg.clone(),
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 840222f..2e5c077 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1914,60 +1914,49 @@ impl CorpusStorage {
 
             let mut any_nodes_added = false;
 
-            for (node_nr, singlematch) in m.iter().enumerate() {
-                // check if query node actually should be included
-                let include_in_output = prep
-                    .query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| prep.query.is_included_in_output(&var));
-
-                if include_in_output {
-                    if any_nodes_added {
-                        match_desc.push(' ');
-                    }
-                    any_nodes_added = true;
+            for singlematch in m.iter() {
+                if any_nodes_added {
+                    match_desc.push(' ');
+                }
+                any_nodes_added = true;
 
-                    let singlematch_anno_key = &singlematch.anno_key;
-                    if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE
-                    {
-                        if !singlematch_anno_key.ns.is_empty() {
-                            let encoded_anno_ns: Cow<str> =
-                                utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
-                                    .into();
-                            match_desc.push_str(&encoded_anno_ns);
-                            match_desc.push_str("::");
-                        }
-                        let encoded_anno_name: Cow<str> =
-                            utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                let singlematch_anno_key = &singlematch.anno_key;
+                if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE {
+                    if !singlematch_anno_key.ns.is_empty() {
+                        let encoded_anno_ns: Cow<str> =
+                            utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
                                 .into();
-                        match_desc.push_str(&encoded_anno_name);
+                        match_desc.push_str(&encoded_anno_ns);
                         match_desc.push_str("::");
                     }
+                    let encoded_anno_name: Cow<str> =
+                        utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                            .into();
+                    match_desc.push_str(&encoded_anno_name);
+                    match_desc.push_str("::");
+                }
 
-                    if let Some(node_name) = db
-                        .get_node_annos()
-                        .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
-                    {
-                        if quirks_mode {
-                            // Unescape all parts of the name and re-escape with
-                            // quirks-mode compatible character encoding set
-                            let re_encoded_name = node_name
-                                .split('/')
-                                .map(|n| {
-                                    let decoded_name =
-                                        percent_encoding::percent_decode_str(n).decode_utf8_lossy();
-                                    let re_encoded_name: Cow<str> = utf8_percent_encode(
-                                        &decoded_name,
-                                        QUIRKS_SALT_URI_ENCODE_SET,
-                                    )
-                                    .into();
-                                    re_encoded_name.to_string()
-                                })
-                                .join("/");
-                            match_desc.push_str(&re_encoded_name);
-                        } else {
-                            match_desc.push_str(&node_name);
-                        }
+                if let Some(node_name) = db
+                    .get_node_annos()
+                    .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
+                {
+                    if quirks_mode {
+                        // Unescape all parts of the name and re-escape with
+                        // quirks-mode compatible character encoding set
+                        let re_encoded_name = node_name
+                            .split('/')
+                            .map(|n| {
+                                let decoded_name =
+                                    percent_encoding::percent_decode_str(n).decode_utf8_lossy();
+                                let re_encoded_name: Cow<str> =
+                                    utf8_percent_encode(&decoded_name, QUIRKS_SALT_URI_ENCODE_SET)
+                                        .into();
+                                re_encoded_name.to_string()
+                            })
+                            .join("/");
+                        match_desc.push_str(&re_encoded_name);
+                    } else {
+                        match_desc.push_str(&node_name);
                     }
                 }
             }
@@ -2289,13 +2278,13 @@ impl CorpusStorage {
             let db: &AnnotationGraph = get_read_or_error(&lock)?;
 
             // get the matching annotation keys for each definition entry
-            let mut annokeys: Vec<(usize, Vec<AnnoKey>)> = Vec::default();
+            let mut annokeys: Vec<(&str, Vec<AnnoKey>)> = Vec::default();
             for def in definition.iter() {
-                if let Some(node_ref) = prep.query.get_variable_pos(&def.node_ref) {
+                if prep.query.contains_variable(&def.node_ref) {
                     if let Some(ns) = &def.ns {
                         // add the single fully qualified annotation key
                         annokeys.push((
-                            node_ref,
+                            &def.node_ref,
                             vec![AnnoKey {
                                 ns: ns.clone(),
                                 name: def.name.clone(),
@@ -2303,24 +2292,26 @@ impl CorpusStorage {
                         ));
                     } else {
                         // add all matching annotation keys
-                        annokeys.push((node_ref, db.get_node_annos().get_qnames(&def.name)?));
+                        annokeys.push((&def.node_ref, db.get_node_annos().get_qnames(&def.name)?));
                     }
                 }
             }
 
-            let plan =
+            let mut plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
             let mut total_count: u64 = 0;
 
-            for mgroup in plan {
+            while let Some(mgroup) = plan.next() {
                 let mgroup = mgroup?;
+                let alternative = plan.current_alternative();
 
                 // for each match, extract the defined annotation (by its key) from the result node
                 let mut tuple: Vec<String> = Vec::with_capacity(annokeys.len());
                 for (node_ref, anno_keys) in &annokeys {
                     let mut tuple_val: String = String::default();
-                    if *node_ref < mgroup.len() {
-                        let m: &Match = &mgroup[*node_ref];
+                    // The node might not be part of the alternative this match belongs to
+                    let node_pos = alternative.and_then(|alt| alt.get_output_pos(node_ref));
+                    if let Some(m) = node_pos.and_then(|pos| mgroup.get(pos)) {
                         for k in anno_keys.iter() {
                             if let Some(val) = db.get_node_annos().get_value_for_item(&m.node, k)? {
                                 tuple_val = val.to_string();
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 00d58c9..fba4247 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -1,5 +1,6 @@
 use crate::AnnotationGraph;
 use crate::annis::db::aql::Config;
+use crate::annis::db::aql::conjunction::Conjunction;
 use crate::annis::db::aql::disjunction::Disjunction;
 use crate::annis::db::exec::{EmptyResultSet, ExecutionNode, ExecutionNodeDesc};
 use crate::annis::errors::*;
@@ -19,6 +20,8 @@ pub struct ExecutionPlan<'a> {
     current_plan: usize,
     descriptions: Vec<Option<ExecutionNodeDesc>>,
     inverse_node_pos: Vec<Option<Vec<usize>>>,
+    /// For each plan, the alternative of the disjunction it belongs to.
+    alternatives: Vec<&'a Conjunction>,
     proxy_mode: bool,
     unique_result_set: BtreeIndex<Vec<(NodeID, usize)>, bool>,
     anno_key_symbols: SymbolTable<AnnoKey>,
@@ -34,6 +37,7 @@ impl<'a> ExecutionPlan<'a> {
         let mut plans: Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>> = Vec::new();
         let mut descriptions = Vec::new();
         let mut inverse_node_pos = Vec::new();
+        let mut alternatives = Vec::new();
         for alt in &query.alternatives {
             let p = alt.make_exec_node(db, config, timeout);
             if let Ok(p) = p {
@@ -66,6 +70,7 @@ impl<'a> ExecutionPlan<'a> {
                 }
 
                 plans.push(p);
+                alternatives.push(alt);
             } else if let Err(e) = p
                 && let GraphAnnisError::AQLSemanticError(_) = &e
             {
@@ -84,6 +89,7 @@ impl<'a> ExecutionPlan<'a> {
             current_plan: 0,
             descriptions,
             inverse_node_pos,
+            alternatives,
             proxy_mode: plans.len() == 1,
             plans,
             unique_result_set: BtreeIndex::with_capacity(btree_config, 10_000)?,
@@ -91,11 +97,28 @@ impl<'a> ExecutionPlan<'a> {
         })
     }
 
+    /// The alternative of the disjunction the last returned match belongs to.
+    pub fn current_alternative(&self) -> Option<&'a Conjunction> {
+        self.alternatives.get(self.current_plan).copied()
+    }
+
     /// Re-orders the match vector from the top execution node to match the
-    /// requested query node order. If query nodes are not part of the result,
-    /// they are still included in the vector but you can not use the node ID at
-    /// this position.
+    /// requested query node order. Query nodes which are not part of the output
+    /// of the current alternative are removed.
     fn reorder_match(&self, tmp: MatchGroup) -> MatchGroup {
+        let result = self.restore_query_node_order(tmp);
+        match self.current_alternative() {
+            Some(alt) => result
+                .into_iter()
+                .enumerate()
+                .filter(|(pos, _)| alt.is_node_included_in_output(*pos))
+                .map(|(_, m)| m)
+                .collect(),
+            None => result,
+        }
+    }
+
+    fn restore_query_node_order(&self, tmp: MatchGroup) -> MatchGroup {
         if let Some(inverse_node_pos) = &self.inverse_node_pos[self.current_plan] {
             // re-order the matched nodes by the original node position of the query
             let mut result = MatchGroup::new();
-- 
2.43.0


From c1fdaabedf5325d7219d2d0b05758367edb00691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 21/53] fix: count() counted errors of the query execution as
 matches

---
 graphannis/src/annis/db/corpusstorage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 2e5c077..31e13f8 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1603,7 +1603,8 @@ impl CorpusStorage {
             let plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
 
-            for _ in plan {
+            for m in plan {
+                m?;
                 total_count += 1;
                 if total_count.is_multiple_of(TIMEOUT_CHECK_TUPLE_COUNT) {
                     timeout.check()?;
-- 
2.43.0


From b698640b346df84893d2197a65d921ffad153380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 22/53] fix: overlap of nodes with gaps depended on the chosen
 join

---
 .../src/annis/db/aql/operators/overlap.rs     | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index fd3884d..e365537 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -87,6 +87,23 @@ impl<'a> Overlap<'a> {
     }
 }
 
+impl Overlap<'_> {
+    /// Get all token covered by this node. Each token covers itself.
+    fn covered_token(&self, node: NodeID) -> Result<FxHashSet<NodeID>> {
+        let mut result = FxHashSet::default();
+        if self.tok_helper.is_token(node)? {
+            result.insert(node);
+        } else {
+            for gs_cov in self.tok_helper.get_gs_coverage().iter() {
+                for t in gs_cov.get_outgoing_edges(node) {
+                    result.insert(t?);
+                }
+            }
+        }
+        Ok(result)
+    }
+}
+
 impl std::fmt::Display for Overlap<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         if self.reflexive {
@@ -116,7 +133,10 @@ impl BinaryOperatorBase for Overlap<'_> {
                 // path between LHS left-most token and RHS right-most token exists in ORDERING component
                 && (start_rhs == end_lhs || self.gs_order.distance(start_rhs, end_lhs)?.is_some())
             {
-                return Ok(true);
+                // The nodes might have gaps, thus also check that there is a common token
+                let covered_lhs = self.covered_token(lhs.node)?;
+                let covered_rhs = self.covered_token(rhs.node)?;
+                return Ok(!covered_lhs.is_disjoint(&covered_rhs));
             }
         }
         Ok(false)
-- 
2.43.0


From c68b41d020e5646b2e563b837b9527658d9dd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 23/53] fix: negated relations of components that do not exist
 never matched

---
 .../src/annis/db/aql/operators/negated_op.rs  | 27 +++++++++++++-----
 .../annis/db/aql/operators/non_existing.rs    | 28 +++++++++++++++++--
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/negated_op.rs b/graphannis/src/annis/db/aql/operators/negated_op.rs
index ca37c2f..970b7cd 100644
--- a/graphannis/src/annis/db/aql/operators/negated_op.rs
+++ b/graphannis/src/annis/db/aql/operators/negated_op.rs
@@ -6,7 +6,7 @@ use crate::{
         db::exec::CostEstimate,
         operator::{BinaryOperator, BinaryOperatorBase, BinaryOperatorSpec, EstimationType},
     },
-    errors::Result,
+    errors::{GraphAnnisError, Result},
 };
 use graphannis_core::annostorage::Match;
 
@@ -34,7 +34,12 @@ impl BinaryOperatorSpec for NegatedOpSpec {
         db: &'a AnnotationGraph,
         cost_estimate: Option<(&CostEstimate, &CostEstimate)>,
     ) -> Result<BinaryOperator<'a>> {
-        let negated_op = self.negated_op.create_operator(db, cost_estimate)?;
+        let negated_op = match self.negated_op.create_operator(db, cost_estimate) {
+            Ok(op) => Some(op),
+            // There is no such relation in this graph, thus it never holds
+            Err(GraphAnnisError::ImpossibleSearch(_)) => None,
+            Err(e) => return Err(e),
+        };
         let op = NegatedOp { negated_op };
         Ok(BinaryOperator::Base(Box::new(op)))
     }
@@ -51,13 +56,16 @@ impl BinaryOperatorSpec for NegatedOpSpec {
 }
 
 pub struct NegatedOp<'a> {
-    negated_op: BinaryOperator<'a>,
+    /// The original operator or `None` if the relation can't hold for any nodes
+    negated_op: Option<BinaryOperator<'a>>,
 }
 
 impl Display for NegatedOp<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "!",)?;
-        self.negated_op.fmt(f)?;
+        if let Some(negated_op) = &self.negated_op {
+            negated_op.fmt(f)?;
+        }
         Ok(())
     }
 }
@@ -65,8 +73,10 @@ impl Display for NegatedOp<'_> {
 impl BinaryOperatorBase for NegatedOp<'_> {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
         // Invert the filtered logic by the actual operator
-        let orig = self.negated_op.filter_match(lhs, rhs)?;
-        Ok(!orig)
+        match &self.negated_op {
+            Some(negated_op) => Ok(!negated_op.filter_match(lhs, rhs)?),
+            None => Ok(true),
+        }
     }
 
     fn is_reflexive(&self) -> bool {
@@ -76,7 +86,10 @@ impl BinaryOperatorBase for NegatedOp<'_> {
     }
 
     fn estimation_type(&self) -> Result<EstimationType> {
-        match self.negated_op.estimation_type()? {
+        let Some(negated_op) = &self.negated_op else {
+            return Ok(EstimationType::Selectivity(1.0));
+        };
+        match negated_op.estimation_type()? {
             EstimationType::Selectivity(orig_sel) => {
                 Ok(EstimationType::Selectivity(1.0 - orig_sel))
             }
diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index 5dff03a..f1f5313 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -17,7 +17,7 @@ use crate::{
             aql::conjunction::Conjunction,
             exec::nodesearch::{NodeSearch, NodeSearchSpec},
         },
-        errors::Result,
+        errors::{GraphAnnisError, Result},
         operator::{
             BinaryOperator, BinaryOperatorBase, BinaryOperatorIndex, BinaryOperatorSpec,
             EstimationType, UnaryOperator, UnaryOperatorSpec,
@@ -91,7 +91,12 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
         g: &'b AnnotationGraph,
     ) -> Result<Box<dyn crate::annis::operator::UnaryOperator + 'b>> {
         let mut target_left = self.target_left;
-        let mut orig_op = self.op.create_operator(g, None)?;
+        let mut orig_op = match self.op.create_operator(g, None) {
+            Ok(op) => op,
+            // There is no such relation in this graph, thus no node can be in it
+            Err(GraphAnnisError::ImpossibleSearch(_)) => return Ok(Box::new(AlwaysNonExisting)),
+            Err(e) => return Err(e),
+        };
 
         if target_left {
             // Check if we can avoid a costly filter operation by switching operands
@@ -123,6 +128,25 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
     }
 }
 
+/// Used when the relation can't hold for any nodes of the graph.
+struct AlwaysNonExisting;
+
+impl Display for AlwaysNonExisting {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, " !(impossible)")
+    }
+}
+
+impl UnaryOperator for AlwaysNonExisting {
+    fn filter_match(&self, _m: &graphannis_core::annostorage::Match) -> Result<bool> {
+        Ok(true)
+    }
+
+    fn estimation_type(&self) -> EstimationType {
+        EstimationType::Selectivity(1.0)
+    }
+}
+
 struct NonExistingUnaryOperatorIndex<'a> {
     target: NodeSearchSpec,
     negated_op: Box<dyn BinaryOperatorIndex + 'a>,
-- 
2.43.0


From 65e4eb905665628f61b10af59aa56b6a7e21cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 24/53] fix: recovery from the backup folder wrote the corpus
 to the wrong place and lost it

---
 core/src/graph/mod.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 0f7a0e6..cb412cb 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -312,17 +312,9 @@ impl<CT: ComponentType> Graph<CT> {
         }
 
         if load_from_backup {
-            // save the current corpus under the actual location
-            self.save_to(&location.join("current"))?;
-            // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
-            let tmp_dir = tempfile::Builder::new()
-                .prefix("temporary-graphannis-backup")
-                .tempdir_in(location)?;
-            // the target directory is created and can cause issues on windows: delete it first
-            std::fs::remove_dir(tmp_dir.path())?;
-            std::fs::rename(&backup, tmp_dir.path())?;
-            // remove it after renaming it
-            tmp_dir.close()?;
+            // Complete the interrupted save operation: write the restored
+            // corpus under the actual location and remove the backup.
+            self.internal_save_with_backup(location)?;
         }
 
         Ok(())
@@ -756,6 +748,10 @@ impl<CT: ComponentType> Graph<CT> {
         let current_location = location.join("current");
         if !backup_location.exists() {
             std::fs::rename(&current_location, &backup_location)?;
+        } else if current_location.exists() {
+            // This is an incomplete version left behind by an earlier attempt
+            // and its files must not be mixed with the ones written now.
+            std::fs::remove_dir_all(&current_location)?;
         }
 
         // Save the complete corpus without the write log to the target location
-- 
2.43.0


From 51b518af7d677f0824b4fbef22adbb7ebd58da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:37 +0000
Subject: [PATCH 25/53] fix: acknowledged updates were lost when a later update
 was logged before they were written to the corpus files

---
 core/src/graph/mod.rs | 84 +++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index cb412cb..b38e13d 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -686,38 +686,70 @@ impl<CT: ComponentType> Graph<CT> {
     {
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
-            if apply_update_result.is_ok() {
-                let current_path = location.join("current");
-                // make sure the output path exits
-                std::fs::create_dir_all(&current_path)?;
-
-                // If successfull write log
-                let log_path = current_path.join("update_log.bin");
-
-                // Create a temporary directory in the same file system as the output
-                let temporary_dir = tempfile::tempdir_in(&current_path)?;
-                let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
-
-                debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-                bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
-                temporary_disk_file.flush()?;
-                debug!("moving finished WAL update log to {:?}", &log_path);
-                // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
-                temporary_disk_file.persist(&log_path)?;
-
-                progress_callback("finished writing WAL update log");
-            } else {
-                trace!(
-                    "error occured while applying updates: {:?}",
-                    &apply_update_result
-                );
+            let persist_result = match apply_update_result {
+                Ok(_) => {
+                    let r = Self::write_update_log(&location, u);
+                    progress_callback("finished writing WAL update log");
+                    r
+                }
+                Err(e) => Err(e),
+            };
+            if let Err(e) = persist_result {
+                trace!("error occured while applying updates: {:?}", &e);
                 // load corpus from disk again
                 self.open(&location)?;
                 self.ensure_loaded_all()?;
+                return Err(e);
             }
+            Ok(())
+        } else {
+            apply_update_result
         }
+    }
+
+    /// Add the changes to the write-ahead-log in the given location. Changes of
+    /// earlier updates, which have not been written to the files of the corpus
+    /// yet, remain part of the log.
+    fn write_update_log(location: &Path, u: &GraphUpdate) -> Result<()> {
+        // The log must be part of the folder that is used when the corpus is opened
+        let backup_path = location.join("backup");
+        let output_path = if backup_path.is_dir() {
+            backup_path
+        } else {
+            location.join("current")
+        };
+        // make sure the output path exits
+        std::fs::create_dir_all(&output_path)?;
 
-        apply_update_result
+        let log_path = output_path.join("update_log.bin");
+
+        let merged_update = if log_path.is_file() {
+            let log_reader = std::fs::File::open(&log_path)?;
+            let mut merged: GraphUpdate = bincode::deserialize_from(log_reader)?;
+            for event in u.iter()? {
+                let (_, event) = event?;
+                merged.add_event(event)?;
+            }
+            Some(merged)
+        } else {
+            None
+        };
+
+        // Create a temporary directory in the same file system as the output
+        let temporary_dir = tempfile::tempdir_in(&output_path)?;
+        let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
+
+        debug!("writing WAL update log to {:?}", temporary_disk_file.path());
+        bincode::serialize_into(
+            temporary_disk_file.as_file(),
+            merged_update.as_ref().unwrap_or(u),
+        )?;
+        temporary_disk_file.flush()?;
+        debug!("moving finished WAL update log to {:?}", &log_path);
+        // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
+        temporary_disk_file.persist(&log_path)?;
+
+        Ok(())
     }
 
     /// A function to persist the changes of a write-ahead-log update on the disk. Should be run in a background thread.
-- 
2.43.0


From d2a06e08fd278efdf7512239744cc7e4baad3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 26/53] fix: path storages were not written when their old
 folder had been moved or replaced

---
 core/src/graph/storage/disk_path.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index d1ea604..6a8750d 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -392,13 +392,16 @@ impl GraphStorage for DiskPathStorage {
         std::fs::create_dir_all(location)?;
         // Normalize all paths to check if they are the same
         let new_location = location.normalize()?;
-        if let Some(old_location) = &self.location {
-            let old_location = old_location.normalize()?;
-            if new_location == old_location {
-                // This is an immutable graph storage so there can't be any
-                // changes to write to the existing location we already use.
-                return Ok(());
-            }
+        // The folder might have been moved or removed since the graph storage was
+        // opened. Only skip writing if the files are still at this location.
+        if let Some(old_location) = &self.location
+            && let Ok(old_location) = old_location.normalize()
+            && new_location == old_location
+            && new_location.join("paths.bin").is_file()
+        {
+            // This is an immutable graph storage so there can't be any
+            // changes to write to the existing location we already use.
+            return Ok(());
         }
         // Copy the current paths file to the new location
         let new_paths_file = new_location.join("paths.bin");
-- 
2.43.0


From 8d7e19c7eac888a14083606314ac32756e51fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 27/53] fix: errors when writing the last buffered data of a
 corpus file were ignored

---
 core/src/annostorage/inmemory.rs | 3 +++
 core/src/annostorage/ondisk.rs   | 3 +++
 core/src/graph/storage/mod.rs    | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index e295ed2..034b4c2 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -12,6 +12,7 @@ use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::hash::Hash;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -1001,6 +1002,8 @@ where
         let f = std::fs::File::create(location.join("nodes_v1.bin"))?;
         let mut writer = std::io::BufWriter::new(f);
         bincode::serialize_into(&mut writer, self)?;
+        // Dropping the writer would ignore errors when writing the buffered data
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 484e1e8..18428fa 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -15,6 +15,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use transient_btree_index::BtreeConfig;
@@ -1201,6 +1202,8 @@ where
         bincode::serialize_into(&mut writer, &self.anno_key_sizes)?;
         bincode::serialize_into(&mut writer, &self.histogram_bounds)?;
         bincode::serialize_into(&mut writer, &self.anno_key_symbols)?;
+        // Dropping the writer would ignore errors when writing the buffered data
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 6d3e4f2..a82f327 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -17,7 +17,7 @@ use crate::{
 };
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use std::{self, path::Path};
+use std::{self, io::Write, path::Path};
 
 /// Some general statistical numbers specific to a graph component
 #[derive(Serialize, Deserialize, Clone)]
@@ -209,6 +209,8 @@ where
     let f_data = std::fs::File::create(data_path)?;
     let mut writer = std::io::BufWriter::new(f_data);
     bincode::serialize_into(&mut writer, field)?;
+    // Dropping the writer would ignore errors when writing the buffered data
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 50b2b421201b155771d6fbe8322edeb4d328b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:47 +0000
Subject: [PATCH 28/53] fix: saving a graph was not atomic and mixed new with
 existing files

---
 core/src/graph/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index b38e13d..c3cc0af 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -324,13 +324,35 @@ impl<CT: ComponentType> Graph<CT> {
     pub fn save_to(&mut self, location: &Path) -> Result<()> {
         // make sure all components are loaded, otherwise saving them does not make any sense
         self.ensure_loaded_all()?;
-        self.internal_save(&location.join("current"))
+        self.internal_save_complete(location)
     }
 
     /// Save the current database at a new `location` and remember it as new internal location.
     pub fn persist_to(&mut self, location: &Path) -> Result<()> {
+        // components which are not loaded yet can only be found at the old location
+        self.ensure_loaded_all()?;
+        self.internal_save_complete(location)?;
         self.location = Some(location.to_path_buf());
-        self.internal_save(&location.join("current"))
+        Ok(())
+    }
+
+    /// Save the graph to the given location. If the process is interrupted, the
+    /// location will contain either the complete graph or its previous content.
+    fn internal_save_complete(&self, location: &Path) -> Result<()> {
+        let current_location = location.join("current");
+        if current_location.exists() || location.join("backup").exists() {
+            return self.internal_save_with_backup(location);
+        }
+        // There is no old version: write the graph to a temporary folder and
+        // only use its actual name when all files are written.
+        std::fs::create_dir_all(location)?;
+        let tmp_dir = tempfile::Builder::new()
+            .prefix("temporary-graphannis-new")
+            .tempdir_in(location)?;
+        let tmp_location = tmp_dir.path().join("current");
+        self.internal_save(&tmp_location)?;
+        std::fs::rename(&tmp_location, &current_location)?;
+        Ok(())
     }
 
     /// Clear the graph content.
-- 
2.43.0


From 6b06cdbc026b30adbb2656e148a60c89f38709b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:14 +0000
Subject: [PATCH 29/53] fix: components with special characters in their layer
 or name were not found again after saving

---
 core/src/graph/mod.rs | 53 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index c3cc0af..d214a5f 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -82,15 +82,54 @@ fn component_to_relative_path<CT: ComponentType>(c: &Component<CT>) -> PathBuf {
     let mut p = PathBuf::new();
     p.push("gs");
     p.push(c.get_type().to_string());
-    p.push(if c.layer.is_empty() {
-        DEFAULT_EMPTY_LAYER
+    if c.layer.is_empty() {
+        p.push(DEFAULT_EMPTY_LAYER);
+    } else if c.layer == DEFAULT_EMPTY_LAYER {
+        // Do not mix up the layer with the name for the empty layer
+        p.push(percent_encode_completely(&c.layer));
     } else {
-        &c.layer
-    });
-    p.push(c.name.as_str());
+        p.push(escape_file_name(&c.layer));
+    }
+    p.push(escape_file_name(&c.name));
     p
 }
 
+fn percent_encode_completely(name: &str) -> String {
+    percent_encoding::utf8_percent_encode(name, percent_encoding::NON_ALPHANUMERIC).to_string()
+}
+
+/// Escape the parts of a layer or component name that can not be used in a file
+/// name. [`unescape_file_name`] returns the original name.
+fn escape_file_name(name: &str) -> String {
+    if name == "." || name == ".." {
+        // These names have a special meaning for the file system
+        return percent_encode_completely(name);
+    }
+    let mut result = String::with_capacity(name.len());
+    for (i, c) in name.char_indices() {
+        match c {
+            '/' => result.push_str("%2F"),
+            '%' => {
+                // Only escape when this would be interpreted as escaped character
+                let next = name.as_bytes().get(i + 1..i + 3);
+                if next.is_some_and(|n| n.iter().all(u8::is_ascii_hexdigit)) {
+                    result.push_str("%25");
+                } else {
+                    result.push('%');
+                }
+            }
+            _ => result.push(c),
+        }
+    }
+    result
+}
+
+fn unescape_file_name(file_name: &str) -> String {
+    percent_encoding::percent_decode_str(file_name)
+        .decode_utf8_lossy()
+        .to_string()
+}
+
 fn component_path<CT: ComponentType>(
     location: &Option<PathBuf>,
     c: &Component<CT>,
@@ -134,7 +173,7 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                     let layer_name = if layer_name_from_file == DEFAULT_EMPTY_LAYER {
                         String::default()
                     } else {
-                        layer_name_from_file.into()
+                        unescape_file_name(&layer_name_from_file)
                     };
                     let empty_name_component =
                         Component::new(c.clone(), layer_name.clone(), String::default());
@@ -154,7 +193,7 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                         let named_component = Component::new(
                             c.clone(),
                             layer_name.clone(),
-                            name.file_name().to_string_lossy().into(),
+                            unescape_file_name(&name.file_name().to_string_lossy()),
                         );
                         let cfg_file = PathBuf::from(location.as_ref())
                             .join(component_to_relative_path(&named_component))
-- 
2.43.0


From 2b89542bc8da6bdb64c9360518491d19d3fdc4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:16 +0000
Subject: [PATCH 30/53] fix: corpora could be loaded more than once and
 outdated instances overwrote newer changes

A corpus that is removed from the cache (unload, eviction, deletion, import)
while it is still in use is now marked, so that pending updates and background
writers can not write to its files anymore.
---
 graphannis/src/annis/db/corpusstorage.rs | 367 ++++++++++++++---------
 1 file changed, 219 insertions(+), 148 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 31e13f8..a0dac82 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -75,6 +75,21 @@ const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 enum CacheEntry {
     Loaded(AnnotationGraph),
     NotLoaded,
+    /// The corpus was loaded, but has been removed from the cache while someone
+    /// still had a reference to this entry. The graph can be used to finish
+    /// reading, but its files might belong to a different version of the corpus
+    /// now and must not be read or changed with this graph.
+    Detached(AnnotationGraph),
+}
+
+impl CacheEntry {
+    /// Must be called for all entries that are removed from the cache.
+    fn detach(&mut self) {
+        *self = match std::mem::replace(self, CacheEntry::NotLoaded) {
+            CacheEntry::Loaded(db) => CacheEntry::Detached(db),
+            other => other,
+        };
+    }
 }
 
 /// Indicates if the corpus is partially or fully loaded into the main memory cache.
@@ -585,7 +600,7 @@ impl CorpusStorage {
                     global_stats: db.global_statistics.clone(),
                 }
             }
-            &CacheEntry::NotLoaded => CorpusInfo {
+            CacheEntry::NotLoaded | CacheEntry::Detached(_) => CorpusInfo {
                 name: corpus_name.to_owned(),
                 load_status: LoadStatus::NotLoaded,
                 graphstorages: vec![],
@@ -633,6 +648,15 @@ impl CorpusStorage {
     ) -> Result<Arc<RwLock<CacheEntry>>> {
         let cache = &mut *cache_lock;
 
+        // Another thread might have loaded the corpus while this thread was
+        // waiting for the lock. There must not be more than one loaded graph
+        // for the same corpus.
+        if let Some(entry) = cache.get(corpus_name)
+            && matches!(*entry.read()?, CacheEntry::Loaded(_))
+        {
+            return Ok(entry.clone());
+        }
+
         // if not loaded yet, get write-lock and load entry
         let db_path = self.corpus_directory_on_disk(corpus_name);
 
@@ -709,59 +733,88 @@ impl CorpusStorage {
         }
     }
 
-    fn get_loaded_entry_with_components(
+    /// Execute a function with exclusive access to the loaded graph of a corpus.
+    fn with_exclusive_graph<T, F>(
         &self,
         corpus_name: &str,
-        components: Vec<Component<AnnotationComponentType>>,
-    ) -> Result<Arc<RwLock<CacheEntry>>> {
-        let db_entry = self.get_loaded_entry(corpus_name, false, false)?;
-        let missing_components = {
-            let lock = db_entry.read()?;
-            let db = get_read_or_error(&lock)?;
-
-            let mut missing: HashSet<_> = HashSet::new();
-            for c in components {
-                if !db.is_loaded(&c) {
-                    missing.insert(c);
+        create_if_missing: bool,
+        f: F,
+    ) -> Result<(Arc<RwLock<CacheEntry>>, T)>
+    where
+        F: FnOnce(&mut AnnotationGraph) -> Result<T>,
+    {
+        loop {
+            let db_entry = self.get_loaded_entry(corpus_name, create_if_missing, false)?;
+            let mut lock = db_entry.write()?;
+            if let CacheEntry::Loaded(db) = &mut *lock {
+                let result = f(db);
+                if result.is_err() {
+                    // The graph might be incomplete: load it again when it is needed
+                    *lock = CacheEntry::NotLoaded;
                 }
+                drop(lock);
+                return result.map(|r| (db_entry, r));
             }
-            missing
-        };
-        if !missing_components.is_empty() {
-            // load the needed components
-            let mut lock = db_entry.write()?;
-            let db = get_write_or_error(&mut lock)?;
-            for c in missing_components {
-                db.ensure_loaded(&c)?;
+            // The corpus has been removed from the cache before we got the lock: try again
+        }
+    }
+
+    /// Execute a function with read access to the graph of a corpus with all its
+    /// components. The files of the corpus are not changed or removed meanwhile.
+    fn with_fully_loaded_graph<T, F>(&self, corpus_name: &str, f: F) -> Result<T>
+    where
+        F: FnOnce(&AnnotationGraph) -> Result<T>,
+    {
+        loop {
+            let db_entry = self.get_fully_loaded_entry(corpus_name)?;
+            let lock = db_entry.read()?;
+            if let CacheEntry::Loaded(db) = &*lock {
+                return f(db);
             }
-        };
+            // The corpus has been removed from the cache before we got the lock: try again
+        }
+    }
 
-        Ok(db_entry)
+    fn get_loaded_entry_with_components(
+        &self,
+        corpus_name: &str,
+        components: Vec<Component<AnnotationComponentType>>,
+    ) -> Result<Arc<RwLock<CacheEntry>>> {
+        self.get_entry_with_loaded_components(corpus_name, |_| components.clone())
     }
 
     fn get_fully_loaded_entry(&self, corpus_name: &str) -> Result<Arc<RwLock<CacheEntry>>> {
+        self.get_entry_with_loaded_components(corpus_name, |db| db.get_all_components(None, None))
+    }
+
+    fn get_entry_with_loaded_components<F>(
+        &self,
+        corpus_name: &str,
+        components: F,
+    ) -> Result<Arc<RwLock<CacheEntry>>>
+    where
+        F: Fn(&AnnotationGraph) -> Vec<Component<AnnotationComponentType>>,
+    {
         let db_entry = self.get_loaded_entry(corpus_name, false, false)?;
-        let missing_components = {
+        let is_complete = {
             let lock = db_entry.read()?;
-            let db = get_read_or_error(&lock)?;
-
-            let mut missing: HashSet<_> = HashSet::new();
-            for c in db.get_all_components(None, None) {
-                if !db.is_loaded(&c) {
-                    missing.insert(c);
-                }
+            if let CacheEntry::Loaded(db) = &*lock {
+                components(db).iter().all(|c| db.is_loaded(c))
+            } else {
+                false
             }
-            missing
         };
-        if !missing_components.is_empty() {
-            // load the needed components
-            let mut lock = db_entry.write()?;
-            let db = get_write_or_error(&mut lock)?;
-            for c in missing_components {
+        if is_complete {
+            return Ok(db_entry);
+        }
+
+        // load the needed components
+        let (db_entry, _) = self.with_exclusive_graph(corpus_name, false, |db| {
+            for c in components(db) {
                 db.ensure_loaded(&c)?;
             }
-        };
-
+            Ok(())
+        })?;
         Ok(db_entry)
     }
 
@@ -997,10 +1050,13 @@ impl CorpusStorage {
 
             // if there is a cache entry, acquire an exclusive lock for it because
             // other queries or background writers might still have access to it and need to finish first
-            let _lock = old_entry
+            let mut entry_lock = old_entry
                 .as_ref()
                 .map(|db_entry| db_entry.write())
                 .transpose()?;
+            if let Some(lock) = &mut entry_lock {
+                lock.detach();
+            }
 
             if db_path.is_dir()
                 && let Err(e) = std::fs::remove_dir_all(&db_path)
@@ -1189,18 +1245,18 @@ impl CorpusStorage {
     }
 
     fn export_corpus_graphml(&self, corpus_name: &str, path: &Path) -> Result<()> {
-        let output_file = File::create(path)?;
-        let entry = self.get_loaded_entry(corpus_name, false, false)?;
+        self.with_fully_loaded_graph(corpus_name, |graph| {
+            self.export_loaded_corpus_graphml(corpus_name, graph, path)
+        })
+    }
 
-        // Ensure all components are loaded
-        {
-            let mut lock = entry.write()?;
-            let graph: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
-            graph.ensure_loaded_all()?;
-        }
-        // Perform the export on a read-only reference
-        let lock = entry.read()?;
-        let graph: &AnnotationGraph = get_read_or_error(&lock)?;
+    fn export_loaded_corpus_graphml(
+        &self,
+        corpus_name: &str,
+        graph: &AnnotationGraph,
+        path: &Path,
+    ) -> Result<()> {
+        let output_file = File::create(path)?;
 
         let config_as_str = if let Some(config) = self.get_corpus_config(corpus_name)? {
             Some(toml::to_string_pretty(&config)?)
@@ -1239,6 +1295,29 @@ impl CorpusStorage {
         &self,
         corpus_name: &str,
         use_corpus_subdirectory: bool,
+        zip: &mut zip::ZipWriter<W>,
+        progress_callback: F,
+    ) -> Result<()>
+    where
+        W: Write + Seek,
+        F: Fn(&str),
+    {
+        self.with_fully_loaded_graph(corpus_name, |graph| {
+            self.export_loaded_corpus_to_zip(
+                corpus_name,
+                graph,
+                use_corpus_subdirectory,
+                zip,
+                progress_callback,
+            )
+        })
+    }
+
+    fn export_loaded_corpus_to_zip<W, F>(
+        &self,
+        corpus_name: &str,
+        graph: &AnnotationGraph,
+        use_corpus_subdirectory: bool,
         mut zip: &mut zip::ZipWriter<W>,
         progress_callback: F,
     ) -> Result<()>
@@ -1257,18 +1336,6 @@ impl CorpusStorage {
         let path_in_zip = base_path.join(format!("{}.graphml", corpus_name));
         zip.start_file(path_in_zip.to_string_lossy(), options)?;
 
-        let entry = self.get_loaded_entry(corpus_name, false, false)?;
-
-        // Ensure all components are loaded
-        {
-            let mut lock = entry.write()?;
-            let graph: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
-            graph.ensure_loaded_all()?;
-        }
-        // Perform the export on a read-only reference
-        let lock = entry.read()?;
-        let graph: &AnnotationGraph = get_read_or_error(&lock)?;
-
         let config_as_str = if let Some(config) = self.get_corpus_config(corpus_name)? {
             Some(toml::to_string_pretty(&config)?)
         } else {
@@ -1368,10 +1435,13 @@ impl CorpusStorage {
 
         // if there is a cache entry, acquire an exclusive lock for it because
         // other queries or background writers might still have access to it and need to finish first
-        let _lock = db_entry
+        let mut entry_lock = db_entry
             .as_ref()
             .map(|db_entry| db_entry.write())
             .transpose()?;
+        if let Some(lock) = &mut entry_lock {
+            lock.detach();
+        }
 
         if db_path.is_dir() {
             std::fs::remove_dir_all(db_path).map_err(|e| {
@@ -1411,13 +1481,8 @@ impl CorpusStorage {
     ///
     /// It is ensured that the update process is atomic and that the changes are persisted to disk if the result is `Ok`.
     pub fn apply_update(&self, corpus_name: &str, update: &mut GraphUpdate) -> Result<()> {
-        let db_entry = self.get_loaded_entry(corpus_name, true, false)?;
-        {
-            let mut lock = db_entry.write()?;
-            let db: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
-
-            db.apply_update(update, |_| {})?;
-        }
+        let (db_entry, _) = self
+            .with_exclusive_graph(corpus_name, true, |db| Ok(db.apply_update(update, |_| {})?))?;
         // start background thread to persists the results
         let active_background_workers = self.active_background_workers.clone();
         {
@@ -1442,20 +1507,17 @@ impl CorpusStorage {
         additional_components_callback: F,
     ) -> Result<PreparationResult>
     where
-        F: FnOnce(&AnnotationGraph) -> Vec<Component<AnnotationComponentType>>,
+        F: Fn(&AnnotationGraph) -> Vec<Component<AnnotationComponentType>>,
     {
         let db_entry = self.get_loaded_entry(corpus_name, false, false)?;
 
-        // make sure the database is loaded with all necessary components
-        let (q, missing_components) = {
-            let lock = db_entry.read()?;
-            let db = get_read_or_error(&lock)?;
-
-            let q = match query_language {
-                QueryLanguage::AQL => aql::parse(query, false)?,
-                QueryLanguage::AQLQuirksV3 => aql::parse(query, true)?,
-            };
+        let q = match query_language {
+            QueryLanguage::AQL => aql::parse(query, false)?,
+            QueryLanguage::AQLQuirksV3 => aql::parse(query, true)?,
+        };
 
+        // make sure the database is loaded with all necessary components
+        let find_missing_components = |db: &AnnotationGraph| -> Vec<_> {
             let necessary_components = q.necessary_components(db);
 
             let mut missing: HashSet<_> = necessary_components.iter().cloned().collect();
@@ -1470,34 +1532,38 @@ impl CorpusStorage {
                     missing.remove(c);
                 }
             }
-            let missing: Vec<_> = missing.into_iter().collect();
-            (q, missing)
+            missing.into_iter().collect()
         };
 
-        if !missing_components.is_empty() {
-            // load the needed components
-            let loaded_components = {
-                let mut lock = db_entry.write()?;
-                let db = get_write_or_error(&mut lock)?;
-                db.ensure_loaded_parallel(&missing_components)?
-            };
-            let removed = self.check_cache_size_and_remove(vec![corpus_name])?;
-            if removed || !loaded_components.is_empty() {
-                self.report_corpus_cache_info("Corpus cache after loading components")?;
+        let is_complete = {
+            let lock = db_entry.read()?;
+            if let CacheEntry::Loaded(db) = &*lock {
+                find_missing_components(db).is_empty()
+            } else {
+                false
             }
         };
+        if is_complete {
+            return Ok(PreparationResult { query: q, db_entry });
+        }
+
+        // load the needed components
+        let (db_entry, loaded_components) =
+            self.with_exclusive_graph(corpus_name, false, |db| {
+                let missing_components = find_missing_components(db);
+                Ok(db.ensure_loaded_parallel(&missing_components)?)
+            })?;
+        let removed = self.check_cache_size_and_remove(vec![corpus_name])?;
+        if removed || !loaded_components.is_empty() {
+            self.report_corpus_cache_info("Corpus cache after loading components")?;
+        }
 
         Ok(PreparationResult { query: q, db_entry })
     }
 
     /// Preloads all annotation and graph storages from the disk into a main memory cache.
     pub fn preload(&self, corpus_name: &str) -> Result<()> {
-        {
-            let db_entry = self.get_loaded_entry(corpus_name, false, false)?;
-            let mut lock = db_entry.write()?;
-            let db = get_write_or_error(&mut lock)?;
-            db.ensure_loaded_all()?;
-        }
+        self.with_exclusive_graph(corpus_name, false, |db| Ok(db.ensure_loaded_all()?))?;
         self.check_cache_size_and_remove(vec![corpus_name])?;
         self.report_corpus_cache_info(format!("Corpus cache after preloading {corpus_name}"))?;
 
@@ -1508,7 +1574,11 @@ impl CorpusStorage {
     pub fn unload(&self, corpus_name: &str) -> Result<()> {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
-        cache.remove(corpus_name);
+        if let Some(db_entry) = cache.remove(corpus_name) {
+            // Other queries or background writers might still have access to
+            // the entry and need to finish before the corpus is loaded again.
+            db_entry.write()?.detach();
+        }
         Ok(())
     }
 
@@ -1517,17 +1587,16 @@ impl CorpusStorage {
     /// - `disk_based` - If `true`, prefer disk-based annotation and graph storages instead of memory-only ones.
     #[doc(hidden)]
     pub fn reoptimize_implementation(&self, corpus_name: &str, disk_based: bool) -> Result<()> {
-        let graph_entry = self.get_loaded_entry(corpus_name, false, disk_based)?;
-        let mut lock = graph_entry.write()?;
-        let graph: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
-
-        graph.optimize_impl(disk_based)?;
+        self.with_exclusive_graph(corpus_name, false, |graph| {
+            graph.optimize_impl(disk_based)?;
 
-        // Re-calculate the corpus size if not set yet
-        let mut config = self.get_corpus_config(corpus_name)?.unwrap_or_default();
-        if self.update_corpus_size_info(&mut config, graph) {
-            self.write_corpus_config(corpus_name, config)?;
-        }
+            // Re-calculate the corpus size if not set yet
+            let mut config = self.get_corpus_config(corpus_name)?.unwrap_or_default();
+            if self.update_corpus_size_info(&mut config, graph) {
+                self.write_corpus_config(corpus_name, config)?;
+            }
+            Ok(())
+        })?;
 
         Ok(())
     }
@@ -2591,22 +2660,11 @@ impl Drop for CorpusStorage {
 }
 
 fn get_read_or_error<'a>(lock: &'a RwLockReadGuard<CacheEntry>) -> Result<&'a AnnotationGraph> {
-    if let CacheEntry::Loaded(db) = &**lock {
-        Ok(db)
-    } else {
-        Err(GraphAnnisError::LoadingGraphFailed {
+    match &**lock {
+        CacheEntry::Loaded(db) | CacheEntry::Detached(db) => Ok(db),
+        CacheEntry::NotLoaded => Err(GraphAnnisError::LoadingGraphFailed {
             name: "".to_string(),
-        })
-    }
-}
-
-fn get_write_or_error<'a>(
-    lock: &'a mut RwLockWriteGuard<CacheEntry>,
-) -> Result<&'a mut AnnotationGraph> {
-    if let CacheEntry::Loaded(db) = &mut **lock {
-        Ok(db)
-    } else {
-        Err(CorpusStorageError::CorpusCacheEntryNotLoaded.into())
+        }),
     }
 }
 
@@ -2645,26 +2703,33 @@ fn check_cache_size_and_remove_with_cache(
     let all_corpus_names: Vec<String> = cache.keys().cloned().collect();
     let mut removed = false;
     for corpus_name in all_corpus_names {
-        let corpus_is_loaded = if let Some(cache_entry) = cache.get(&corpus_name) {
-            matches!(*cache_entry.read()?, CacheEntry::Loaded(_))
+        if size_sum <= max_cache_size {
+            // cache size is smaller, nothing to do
+            break;
+        }
+        if keep.contains(corpus_name.as_str()) {
+            continue;
+        }
+        // Do not wait for corpora which are used right now, but remove them later if still needed
+        let was_detached = if let Some(cache_entry) = cache.get(&corpus_name)
+            && let Ok(mut lock) = cache_entry.try_write()
+            && matches!(*lock, CacheEntry::Loaded(_))
+        {
+            lock.detach();
+            true
         } else {
             false
         };
-        if size_sum > max_cache_size {
-            if corpus_is_loaded && !keep.contains(corpus_name.as_str()) {
-                cache.remove(&corpus_name);
-                // Re-measure the currently used memory size for this process
-                size_sum = memory_stats().map(|s| s.physical_mem).unwrap_or(usize::MAX);
-                debug!(
-                    "Removing corpus {} from cache. {}",
-                    corpus_name,
-                    get_corpus_cache_info_as_string(cache, cache_strategy)?,
-                );
-                removed = true;
-            }
-        } else {
-            // cache size is smaller, nothing to do
-            break;
+        if was_detached {
+            cache.remove(&corpus_name);
+            // Re-measure the currently used memory size for this process
+            size_sum = memory_stats().map(|s| s.physical_mem).unwrap_or(usize::MAX);
+            debug!(
+                "Removing corpus {} from cache. {}",
+                corpus_name,
+                get_corpus_cache_info_as_string(cache, cache_strategy)?,
+            );
+            removed = true;
         }
     }
 
@@ -2768,18 +2833,24 @@ fn sync_wal_updates_in_background(
     active_background_workers: Arc<(Mutex<usize>, Condvar)>,
 ) -> Result<()> {
     trace!("Starting background thread to sync WAL updates");
+    let result = sync_wal_updates(&db_entry);
+    // Always report the end of this worker, also when the update failed
+    let (lock, cvar) = &*active_background_workers;
+    let mut nr_active_background_workers = lock.lock()?;
+    *nr_active_background_workers -= 1;
+    cvar.notify_all();
+    result
+}
+
+fn sync_wal_updates(db_entry: &RwLock<CacheEntry>) -> Result<()> {
     let lock = db_entry.read()?;
-    if let Ok(db) = get_read_or_error(&lock) {
-        let db: &AnnotationGraph = db;
+    // If the corpus was removed from the cache, its files do not belong to this graph anymore
+    if let CacheEntry::Loaded(db) = &*lock {
         if let Err(e) = db.background_sync_wal_updates() {
             error!("Can't sync changes in background thread: {:?}", e);
         } else {
             trace!("Finished background thread to sync WAL updates");
         }
     }
-    let (lock, cvar) = &*active_background_workers;
-    let mut nr_active_background_workers = lock.lock()?;
-    *nr_active_background_workers -= 1;
-    cvar.notify_all();
     Ok(())
 }
-- 
2.43.0


From 39bc4143863ab67ebd72b7c767e161bae3e0d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 31/53] fix: creating, importing and deleting corpora was not
 atomic and could affect other folders

- The name of a corpus could be mapped to the database folder itself ("" and
  ".") or its parent folder (".."), which was removed when deleting it.
- Querying information about a missing corpus made it impossible to create it.
- An interrupted or failed deletion, creation or import left parts of the corpus
  behind, an import removed the old corpus before the new one was written and
  reported success if it could not be saved.
- Listing the components ignored changes not yet written to their folders.
---
 graphannis/src/annis/db/corpusstorage.rs | 333 +++++++++++++----------
 1 file changed, 193 insertions(+), 140 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index a0dac82..f1eed23 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -72,6 +72,9 @@ mod tests;
 /// After how many produces tuples the timeout check should be manually triggered (in case the underlying joint did not already check the timeout)
 const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 
+/// Prefix for directories inside the database directory that are not the directory of a corpus.
+const TEMPORARY_DIRECTORY_PREFIX: &str = "temporary graphannis ";
+
 enum CacheEntry {
     Loaded(AnnotationGraph),
     NotLoaded,
@@ -497,6 +500,8 @@ impl CorpusStorage {
 
     fn list_from_disk(&self) -> Result<Vec<String>> {
         let mut corpora: Vec<String> = Vec::new();
+        // Make sure no corpus is created or deleted while collecting the names
+        let _cache_lock = self.corpus_cache.read()?;
         let directories =
             self.db_dir
                 .read_dir()
@@ -519,28 +524,35 @@ impl CorpusStorage {
                 let directory_name = c_dir.file_name();
                 let corpus_name = directory_name.to_string_lossy();
                 // Use the decoded corpus name instead of the directory name
-                let corpus_name = percent_decode_str(&corpus_name);
-                corpora.push(corpus_name.decode_utf8_lossy().to_string());
+                let corpus_name = percent_decode_str(&corpus_name)
+                    .decode_utf8_lossy()
+                    .to_string();
+                // Ignore directories which do not belong to a corpus
+                if self.corpus_directory_on_disk(&corpus_name).as_deref() == Some(&c_dir.path())
+                    && self.corpus_exists(&corpus_name)
+                {
+                    corpora.push(corpus_name);
+                }
             }
         }
         Ok(corpora)
     }
 
     fn get_corpus_config(&self, corpus_name: &str) -> Result<Option<CorpusConfiguration>> {
-        let corpus_config_path = self
-            .corpus_directory_on_disk(corpus_name)
-            .join("corpus-config.toml");
-        if corpus_config_path.is_file() {
-            let file_content = std::fs::read_to_string(corpus_config_path)?;
-            let config = toml::from_str(&file_content)?;
-            Ok(Some(config))
-        } else {
-            Ok(None)
+        let Some(db_path) = self.corpus_directory_on_disk(corpus_name) else {
+            return Ok(None);
+        };
+        match std::fs::read_to_string(db_path.join("corpus-config.toml")) {
+            Ok(file_content) => Ok(Some(toml::from_str(&file_content)?)),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(e.into()),
         }
     }
 
     fn write_corpus_config(&self, corpus_name: &str, config: CorpusConfiguration) -> Result<()> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self
+            .corpus_directory_on_disk(corpus_name)
+            .ok_or_else(|| GraphAnnisError::NoSuchCorpus(corpus_name.to_string()))?;
 
         let corpus_config_path = db_path.join("corpus-config.toml");
         info!(
@@ -548,7 +560,10 @@ impl CorpusStorage {
             corpus_name,
             &corpus_config_path.to_string_lossy()
         );
-        std::fs::write(corpus_config_path, toml::to_string(&config)?)?;
+        // Write to a temporary file first: the existing file should be replaced in one step
+        let temporary_path = db_path.join("temporary-graphannis-config.toml");
+        std::fs::write(&temporary_path, toml::to_string(&config)?)?;
+        std::fs::rename(&temporary_path, &corpus_config_path)?;
         Ok(())
     }
 
@@ -658,9 +673,11 @@ impl CorpusStorage {
         }
 
         // if not loaded yet, get write-lock and load entry
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self
+            .corpus_directory_on_disk(corpus_name)
+            .ok_or_else(|| GraphAnnisError::NoSuchCorpus(corpus_name.to_string()))?;
 
-        let create_corpus = if db_path.is_dir() {
+        let create_corpus = if self.corpus_exists(corpus_name) {
             false
         } else if create_if_missing {
             true
@@ -1036,48 +1053,22 @@ impl CorpusStorage {
         self.update_corpus_size_info(&mut config, &graph);
 
         let corpus_name = corpus_name.unwrap_or(orig_name);
-        let db_path = self.corpus_directory_on_disk(&corpus_name);
-
-        let mut cache_lock = self.corpus_cache.write()?;
-        let cache = &mut *cache_lock;
-
-        // make sure the cache is not too large before adding the new corpus
-        check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![])?;
-
-        // remove any possible old corpus
-        if overwrite_existing {
-            let old_entry = cache.remove(&corpus_name);
-
-            // if there is a cache entry, acquire an exclusive lock for it because
-            // other queries or background writers might still have access to it and need to finish first
-            let mut entry_lock = old_entry
-                .as_ref()
-                .map(|db_entry| db_entry.write())
-                .transpose()?;
-            if let Some(lock) = &mut entry_lock {
-                lock.detach();
-            }
+        let db_path = self
+            .corpus_directory_on_disk(&corpus_name)
+            .ok_or_else(|| GraphAnnisError::NoSuchCorpus(corpus_name.to_string()))?;
 
-            if db_path.is_dir()
-                && let Err(e) = std::fs::remove_dir_all(&db_path)
-            {
-                error!("Error when removing existing files {}", e);
-            }
-        } else if cache.contains_key(&corpus_name) || db_path.is_dir() {
+        if !overwrite_existing && self.corpus_exists(&corpus_name) {
             return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
         }
 
-        if let Err(e) = std::fs::create_dir_all(&db_path) {
-            error!(
-                "Can't create directory {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        // Write all files to a temporary location first. The actual corpus
+        // is only created or replaced if this was successful.
+        let tmp_dir = create_temporary_directory(&self.db_dir)?;
+        let tmp_path = tmp_dir.path().join("imported");
 
         info!("Copying linked files for corpus {}", corpus_name);
         let current_dir = PathBuf::from(".");
-        let files_dir = db_path.join("files");
+        let files_dir = tmp_path.join("files");
         std::fs::create_dir_all(&files_dir)?;
         let old_base_path = path
             .parent()
@@ -1087,23 +1078,30 @@ impl CorpusStorage {
 
         // save to its location
         info!("Saving corpus {} to disk", corpus_name);
-        let save_result = graph.save_to(&db_path);
-        if let Err(e) = save_result {
-            error!(
-                "Can't save corpus to {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        graph.save_to(&tmp_path)?;
 
         // Use the imported/generated/default corpus configuration and store it in our graph directory
-        let corpus_config_path = db_path.join("corpus-config.toml");
         info!(
-            "Saving corpus configuration file for corpus {} to {}",
-            corpus_name,
-            &corpus_config_path.to_string_lossy()
+            "Saving corpus configuration file for corpus {}",
+            corpus_name
         );
-        std::fs::write(corpus_config_path, toml::to_string(&config)?)?;
+        std::fs::write(
+            tmp_path.join("corpus-config.toml"),
+            toml::to_string(&config)?,
+        )?;
+
+        let mut cache_lock = self.corpus_cache.write()?;
+        let cache = &mut *cache_lock;
+
+        // make sure the cache is not too large before adding the new corpus
+        check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![])?;
+
+        if !overwrite_existing && self.corpus_exists(&corpus_name) {
+            return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
+        }
+        // remove any possible old corpus
+        self.remove_corpus(cache, &corpus_name)?;
+        std::fs::rename(&tmp_path, &db_path)?;
 
         // make it known to the cache
         cache.insert(
@@ -1183,8 +1181,12 @@ impl CorpusStorage {
             name: "file".into(),
         };
 
-        let base_path = self.corpus_directory_on_disk(corpus_name).join("files");
-        if base_path.is_dir() {
+        let base_path = self
+            .corpus_directory_on_disk(corpus_name)
+            .map(|db_path| db_path.join("files"));
+        if let Some(base_path) = base_path
+            && base_path.is_dir()
+        {
             let base_path = base_path.canonicalize()?;
 
             // Find all nodes of the type "file"
@@ -1426,37 +1428,10 @@ impl CorpusStorage {
     /// Delete a corpus from this corpus storage.
     /// Returns `true` if the corpus was successfully deleted and `false` if no such corpus existed.
     pub fn delete(&self, corpus_name: &str) -> Result<bool> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
-
         let mut cache_lock = self.corpus_cache.write()?;
-        let cache = &mut *cache_lock;
-
-        let db_entry = cache.remove(corpus_name);
-
-        // if there is a cache entry, acquire an exclusive lock for it because
-        // other queries or background writers might still have access to it and need to finish first
-        let mut entry_lock = db_entry
-            .as_ref()
-            .map(|db_entry| db_entry.write())
-            .transpose()?;
-        if let Some(lock) = &mut entry_lock {
-            lock.detach();
-        }
-
-        if db_path.is_dir() {
-            std::fs::remove_dir_all(db_path).map_err(|e| {
-                CorpusStorageError::RemoveFileForCorpus {
-                    corpus: corpus_name.to_string(),
-                    source: e,
-                }
-            })?;
-
-            Ok(true)
-        } else if db_entry.is_some() {
-            Ok(true)
-        } else {
-            Ok(false)
-        }
+        let existed = self.corpus_exists(corpus_name);
+        self.remove_corpus(&mut cache_lock, corpus_name)?;
+        Ok(existed)
     }
 
     /// Creates a new empty corpus with the given name.
@@ -1464,12 +1439,9 @@ impl CorpusStorage {
     /// Use [`apply_update`](CorpusStorage::apply_update) to add elements to the corpus. Returns whether a
     /// new corpus was created.
     pub fn create_empty_corpus(&self, corpus_name: &str, disk_based: bool) -> Result<bool> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
-
         let mut cache_lock = self.corpus_cache.write()?;
-        let cache = &mut *cache_lock;
 
-        if cache.contains_key(corpus_name) || db_path.is_dir() {
+        if corpus_name.is_empty() || self.corpus_exists(corpus_name) {
             Ok(false)
         } else {
             self.load_entry_with_lock(&mut cache_lock, corpus_name, true, disk_based)?;
@@ -2452,43 +2424,41 @@ impl CorpusStorage {
         ctype: Option<AnnotationComponentType>,
         name: Option<&str>,
     ) -> Result<Vec<Component<AnnotationComponentType>>> {
-        if let Ok(db_entry) = self.get_entry(corpus_name) {
-            // Lock the entry so no-one else can write to it
-            let _lock = db_entry.read()?;
-            // Get the components by listing the directories on the disk We
-            // could use `Graph:get_all_components() but this needs to load the
-            // annotation storage which can be costly.
-            let db_path = self.corpus_directory_on_disk(corpus_name);
-            let backup = db_path.join("backup");
-
-            let dir2load = if backup.exists() && backup.is_dir() {
-                backup.clone()
-            } else {
-                db_path.join("current")
-            };
-            let components = graphannis_core::graph::find_components_from_disk::<
-                AnnotationComponentType,
-                _,
-            >(&dir2load)?
-            .into_iter()
-            .filter(|c| {
-                if let Some(ctype) = ctype.as_ref() {
-                    &c.get_type() == ctype
-                } else {
-                    true
+        let Some(db_path) = self.corpus_directory_on_disk(corpus_name) else {
+            return Ok(vec![]);
+        };
+        loop {
+            {
+                // Lock the cache so no-one else can load the corpus and write to it
+                let cache = self.corpus_cache.read()?;
+                if let Some(db_entry) = cache.get(corpus_name)
+                    && let CacheEntry::Loaded(db) = &*db_entry.read()?
+                {
+                    return Ok(db.get_all_components(ctype, name));
                 }
-            })
-            .filter(|c| {
-                if let Some(name) = name {
-                    c.name.as_str() == name
-                } else {
-                    true
+                // Get the components by listing the directories on the disk.
+                // Loading the annotation storage can be costly and is only
+                // necessary if there are changes which have not been written
+                // to these directories yet.
+                let current = db_path.join("current");
+                if !db_path.join("backup").is_dir() && !current.join("update_log.bin").is_file() {
+                    let components = graphannis_core::graph::find_components_from_disk::<
+                        AnnotationComponentType,
+                        _,
+                    >(&current)?
+                    .into_iter()
+                    .filter(|c| ctype.as_ref().is_none_or(|ctype| &c.get_type() == ctype))
+                    .filter(|c| name.is_none_or(|name| c.name.as_str() == name))
+                    .collect();
+                    return Ok(components);
                 }
-            })
-            .collect();
-            return Ok(components);
+            }
+            match self.get_loaded_entry(corpus_name, false, false) {
+                Ok(_) => {}
+                Err(GraphAnnisError::NoSuchCorpus(_)) => return Ok(vec![]),
+                Err(e) => return Err(e),
+            }
         }
-        Ok(vec![])
     }
 
     /// Returns a list of all node annotations of a corpus given by `corpus_name`.
@@ -2601,13 +2571,67 @@ impl CorpusStorage {
         Ok(removed)
     }
 
-    fn corpus_directory_on_disk(&self, corpus_name: &str) -> PathBuf {
-        let escaped_corpus_name: Cow<str> =
-            utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into();
-        let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), &escaped_corpus_name]
-            .iter()
-            .collect();
-        db_path
+    /// Get the directory of the corpus. Returns `None` if a corpus can not have this name.
+    fn corpus_directory_on_disk(&self, corpus_name: &str) -> Option<PathBuf> {
+        let escaped_corpus_name: Cow<str> = match corpus_name {
+            "" => return None,
+            // these names have a special meaning for the file system
+            "." => "%2E".into(),
+            ".." => "%2E%2E".into(),
+            _ => utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into(),
+        };
+        Some(self.db_dir.join(escaped_corpus_name.as_ref()))
+    }
+
+    /// Returns true if there is a corpus with this name.
+    fn corpus_exists(&self, corpus_name: &str) -> bool {
+        let Some(db_path) = self.corpus_directory_on_disk(corpus_name) else {
+            return false;
+        };
+        // The folder might only contain the files of an interrupted attempt to create the corpus
+        db_path.read_dir().is_ok_and(|entries| {
+            entries.flatten().any(|entry| {
+                !entry
+                    .file_name()
+                    .to_string_lossy()
+                    .starts_with("temporary-graphannis")
+            })
+        })
+    }
+
+    /// Remove a corpus from the cache and its files from the disk.
+    fn remove_corpus(
+        &self,
+        cache: &mut LinkedHashMap<String, Arc<RwLock<CacheEntry>>>,
+        corpus_name: &str,
+    ) -> Result<()> {
+        let db_entry = cache.remove(corpus_name);
+
+        // if there is a cache entry, acquire an exclusive lock for it because
+        // other queries or background writers might still have access to it and need to finish first
+        let mut entry_lock = db_entry
+            .as_ref()
+            .map(|db_entry| db_entry.write())
+            .transpose()?;
+        if let Some(lock) = &mut entry_lock {
+            lock.detach();
+        }
+
+        if let Some(db_path) = self.corpus_directory_on_disk(corpus_name)
+            && db_path.is_dir()
+        {
+            // Move the corpus first, because this is an atomic operation and deleting the files is not
+            let remove_files = || -> std::io::Result<()> {
+                let tmp_dir = create_temporary_directory(&self.db_dir)?;
+                std::fs::rename(&db_path, tmp_dir.path().join("deleted"))?;
+                tmp_dir.close()
+            };
+            remove_files().map_err(|e| CorpusStorageError::RemoveFileForCorpus {
+                corpus: corpus_name.to_string(),
+                source: e,
+            })?;
+        }
+        Ok(())
     }
 
     /// Return the current size and loaded corpora as debug string.
@@ -2801,6 +2825,31 @@ fn extract_subgraph_by_query(
     Ok(result)
 }
 
+/// Create a temporary directory inside the database directory. This can't be
+/// the directory of a corpus, because spaces are escaped in these directories.
+fn create_temporary_directory(db_dir: &Path) -> std::io::Result<tempfile::TempDir> {
+    tempfile::Builder::new()
+        .prefix(TEMPORARY_DIRECTORY_PREFIX)
+        .tempdir_in(db_dir)
+}
+
+/// Remove temporary directories of an interrupted process. Must only be called if
+/// the database directory is locked.
+fn remove_old_temporary_directories(db_dir: &Path) -> std::io::Result<()> {
+    for entry in db_dir.read_dir()? {
+        let entry = entry?;
+        if entry.file_type()?.is_dir()
+            && entry
+                .file_name()
+                .to_string_lossy()
+                .starts_with(TEMPORARY_DIRECTORY_PREFIX)
+        {
+            std::fs::remove_dir_all(entry.path())?;
+        }
+    }
+    Ok(())
+}
+
 fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     std::fs::create_dir_all(db_dir).map_err(|e| CorpusStorageError::LockCorpusDirectory {
         path: db_dir.to_string_lossy().to_string(),
@@ -2825,6 +2874,10 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
             source: e,
         })?;
 
+    if let Err(e) = remove_old_temporary_directories(db_dir) {
+        warn!("Could not remove temporary directories: {:?}", e);
+    }
+
     Ok(lock_file)
 }
 
-- 
2.43.0


From 6ca8bc3d4e4edcc3d3f9d3d084883946a5b2a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 32/53] fix: exporting a missing corpus created or overwrote
 the output file

---
 graphannis/src/annis/db/corpusstorage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index f1eed23..b5f0ada 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1380,6 +1380,14 @@ impl CorpusStorage {
         path: &Path,
         format: ExportFormat,
     ) -> Result<()> {
+        // Do not create or overwrite any files when the corpora can't be exported
+        for corpus_name in corpora {
+            if !self.corpus_exists(corpus_name.as_ref()) {
+                return Err(GraphAnnisError::NoSuchCorpus(
+                    corpus_name.as_ref().to_string(),
+                ));
+            }
+        }
         match format {
             ExportFormat::GraphML => {
                 if corpora.len() == 1 {
-- 
2.43.0


From 616083dbca16ed3b6d18ba7cdd668df6bef8b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 33/53] fix: two instances could lock the same database
 directory at the same time

---
 graphannis/src/annis/db/corpusstorage.rs | 95 ++++++++++++++++--------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index b5f0ada..5e13dad 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2666,26 +2666,37 @@ impl Drop for CorpusStorage {
             nr_active_background_workers = cvar.wait(nr_active_background_workers).unwrap();
         }
 
+        // Delete the lock file. This helps in case different users have acess
+        // to the corpus directory. The first user owns the lock file and closes
+        // the CLI/web service. The second user could take over the lock, but
+        // can't if the lock file still exists and is owned by the previous
+        // user. An example workflow is having a system user for the web service
+        // and occasionally adding new corpora on the command line using an
+        // administration account (see
+        // https://github.com/korpling/graphANNIS/issues/230).
+        let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
+        let remove_lock_file = || {
+            if lock_file_path.exists()
+                && lock_file_path.is_file()
+                && let Err(e) = std::fs::remove_file(&lock_file_path)
+            {
+                warn!("Could not remove CorpusStorage lock file: {:?}", e);
+            }
+        };
+        // As soon as the file is unlocked, the file with this name can belong to
+        // another instance and must not be removed.
+        if cfg!(unix) {
+            remove_lock_file();
+        }
+
         // unlock lock file
         if let Err(e) = FileExt::unlock(&self.lock_file) {
             warn!("Could not unlock CorpusStorage lock file: {:?}", e);
         } else {
             trace!("Unlocked CorpusStorage lock file");
-            // Delete the file after it has been unlocked. This helps in case
-            // different users have acess to the corpus directory. The first
-            // user owns the lock file and closes the CLI/web service. The
-            // second user could take over the lock, but can't if the lock file
-            // still exists and is owned by the previous user. An example
-            // workflow is having a system user for the web service and
-            // occasionally adding new corpora on the command line using an
-            // administration account (see
-            // https://github.com/korpling/graphANNIS/issues/230).
-            let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
-            if lock_file_path.exists()
-                && lock_file_path.is_file()
-                && let Err(e) = std::fs::remove_file(lock_file_path)
-            {
-                warn!("Could not remove CorpusStorage lock file: {:?}", e);
+            if !cfg!(unix) {
+                // It might not be possible to delete a file while it is locked
+                remove_lock_file();
             }
         }
     }
@@ -2858,6 +2869,21 @@ fn remove_old_temporary_directories(db_dir: &Path) -> std::io::Result<()> {
     Ok(())
 }
 
+/// Check if the opened file is still the file that can be found with the given path.
+#[cfg(unix)]
+fn is_file_at_path(file: &File, path: &Path) -> bool {
+    use std::os::unix::fs::MetadataExt;
+    match (file.metadata(), std::fs::metadata(path)) {
+        (Ok(a), Ok(b)) => a.dev() == b.dev() && a.ino() == b.ino(),
+        _ => false,
+    }
+}
+
+#[cfg(not(unix))]
+fn is_file_at_path(_file: &File, path: &Path) -> bool {
+    path.is_file()
+}
+
 fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     std::fs::create_dir_all(db_dir).map_err(|e| CorpusStorageError::LockCorpusDirectory {
         path: db_dir.to_string_lossy().to_string(),
@@ -2865,22 +2891,29 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     })?;
     let lock_file_path = db_dir.join(DB_LOCK_FILE_NAME);
     // check if we can get the file lock
-    let lock_file = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .create(true)
-        .truncate(true)
-        .open(lock_file_path.as_path())
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
-    lock_file
-        .try_lock_exclusive()
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
+    let lock_file = loop {
+        let lock_file = OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .open(lock_file_path.as_path())
+            .map_err(|e| CorpusStorageError::LockCorpusDirectory {
+                path: db_dir.to_string_lossy().to_string(),
+                source: e,
+            })?;
+        lock_file
+            .try_lock_exclusive()
+            .map_err(|e| CorpusStorageError::LockCorpusDirectory {
+                path: db_dir.to_string_lossy().to_string(),
+                source: e,
+            })?;
+        // The previous owner might have deleted the file after it was opened.
+        // Locking a deleted file does not exclude any other instances.
+        if is_file_at_path(&lock_file, &lock_file_path) {
+            break lock_file;
+        }
+    };
 
     if let Err(e) = remove_old_temporary_directories(db_dir) {
         warn!("Could not remove temporary directories: {:?}", e);
-- 
2.43.0


From defb6026ab4ee22e0cc0efa0d82f8536ba8be18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 34/53] fix: displaying an error of the disk-based maps caused
 a stack overflow

---
 core/src/errors.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/errors.rs b/core/src/errors.rs
index faa2ea4..c49b0e3 100644
--- a/core/src/errors.rs
+++ b/core/src/errors.rs
@@ -41,8 +41,10 @@ pub enum GraphAnnisCoreError {
     Io(#[from] std::io::Error),
     #[error(transparent)]
     PersistingTemporaryFile(#[from] tempfile::PersistError),
-    #[error(transparent)]
-    SortedStringTable(#[from] sstable::error::Status),
+    // The display implementation of the inner error would call itself until the
+    // stack overflows. Thus, it can't be used here or as source of this error.
+    #[error("{}", .0.err)]
+    SortedStringTable(sstable::error::Status),
     #[error(transparent)]
     Xml(#[from] quick_xml::Error),
     #[error(transparent)]
@@ -77,6 +79,12 @@ pub enum GraphAnnisCoreError {
     Other(#[from] Box<dyn std::error::Error + Send + Sync>),
 }
 
+impl From<sstable::error::Status> for GraphAnnisCoreError {
+    fn from(e: sstable::error::Status) -> Self {
+        Self::SortedStringTable(e)
+    }
+}
+
 impl<T> From<PoisonError<T>> for GraphAnnisCoreError {
     fn from(e: PoisonError<T>) -> Self {
         Self::LockPoisoning(e.to_string())
-- 
2.43.0


From 9fd16411a5867b1ebfed9194886ba5d2a93ca75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 35/53] fix: unescape attributes and decode annotation names
 when importing GraphML

---
 core/src/graph/serialization/graphml.rs | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index d97a5ff..62fdf56 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -9,6 +9,7 @@ use crate::{
     util::{join_qname, split_qname},
 };
 use itertools::Itertools;
+use percent_encoding::percent_decode_str;
 use quick_xml::{
     Reader, Writer,
     events::{
@@ -407,7 +408,11 @@ where
     Ok(())
 }
 
-fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attributes) -> Result<()> {
+fn add_annotation_key<R>(
+    keys: &mut BTreeMap<String, AnnoKey>,
+    attributes: Attributes,
+    reader: &Reader<R>,
+) -> Result<()> {
     // resolve the ID to the fully qualified annotation name
     let mut id: Option<String> = None;
     let mut anno_key: Option<AnnoKey> = None;
@@ -415,7 +420,7 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
     for att in attributes {
         let att = att?;
 
-        let att_value = String::from_utf8_lossy(&att.value);
+        let att_value = att.decode_and_unescape_value(reader)?;
 
         match att.key.0 {
             b"id" => {
@@ -423,9 +428,12 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
             }
             b"attr.name" => {
                 let (ns, name) = split_qname(att_value.as_ref());
+                // The parts of the qualified name are percent-encoded when exported
                 anno_key = Some(AnnoKey {
-                    ns: ns.unwrap_or("").into(),
-                    name: name.into(),
+                    ns: percent_decode_str(ns.unwrap_or(""))
+                        .decode_utf8_lossy()
+                        .into(),
+                    name: percent_decode_str(name).decode_utf8_lossy().into(),
                 });
             }
             _ => {}
@@ -539,7 +547,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         in_graph = true;
                     }
                     b"key" if level == 2 => {
-                        add_annotation_key(&mut keys, e.attributes())?;
+                        add_annotation_key(&mut keys, e.attributes(), &reader)?;
                     }
                     b"node" if in_graph && level == 3 => {
                         data.clear();
@@ -548,7 +556,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                             let att = att?;
                             if att.key.0 == b"id" {
                                 current_node_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             }
                         }
                     }
@@ -560,13 +568,13 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                             let att = att?;
                             if att.key.0 == b"source" {
                                 current_source_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             } else if att.key.0 == b"target" {
                                 current_target_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             } else if att.key.0 == b"label" {
                                 current_component =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             }
                         }
                     }
@@ -576,7 +584,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                             let att = att?;
                             if att.key.0 == b"key" {
                                 current_data_key =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             }
                         }
                     }
-- 
2.43.0


From dee0247453cbfb652362f6e61ce5c07c95ea4130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 36/53] fix: split GraphML configuration containing the CDATA
 end marker into several sections

---
 core/src/graph/serialization/graphml.rs | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index 62fdf56..8ef1b3f 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -278,6 +278,21 @@ fn write_edges<CT: ComponentType, W: std::io::Write>(
     Ok(())
 }
 
+/// Add the configuration as CDATA section(s).
+///
+/// A single section can't contain the marker for its own end, the text is
+/// distributed over several sections in this case.
+fn write_configuration<W: std::io::Write>(config: &str, writer: &mut Writer<W>) -> Result<()> {
+    let mut remaining = config;
+    while let Some(pos) = remaining.find("]]>") {
+        let (section, rest) = remaining.split_at(pos + 2);
+        writer.write_event(Event::CData(BytesCData::new(section)))?;
+        remaining = rest;
+    }
+    writer.write_event(Event::CData(BytesCData::new(remaining)))?;
+    Ok(())
+}
+
 pub fn export<CT: ComponentType, W: std::io::Write, F>(
     graph: &Graph<CT>,
     graph_configuration: Option<&str>,
@@ -319,8 +334,7 @@ where
         // This is always the first key ID
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
-        // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_configuration(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -386,8 +400,7 @@ where
         // This is always the first key ID
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
-        // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_configuration(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -601,8 +614,10 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                     && level == 3
                     && current_data_key == "k0"
                 {
-                    // This is the configuration content
-                    config = Some(String::from_utf8_lossy(&t).to_string());
+                    // This is the configuration content, which can be split into several sections
+                    config
+                        .get_or_insert_with(String::new)
+                        .push_str(&String::from_utf8_lossy(&t));
                 }
             }
             Event::End(ref e) => {
-- 
2.43.0


From ac90f2244a23758ecd93dc18e1a8c1bbe34434ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:33 +0000
Subject: [PATCH 37/53] fix: layers containing a slash were not preserved when
 exporting to GraphML

---
 core/src/graph/serialization/graphml.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index 8ef1b3f..5babf21 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -193,6 +193,19 @@ fn write_nodes<CT: ComponentType, W: std::io::Write>(
     Ok(())
 }
 
+/// Get the textual representation of the component. Since the layer is
+/// terminated by the "/" character it must be escaped inside the layer.
+fn component_to_label<CT: ComponentType>(component: &Component<CT>) -> String {
+    let layer = component.layer.replace('%', "%25").replace('/', "%2F");
+    Component::new(component.get_type(), layer, component.name.clone()).to_string()
+}
+
+fn component_from_label<CT: ComponentType>(label: &str) -> Result<Component<CT>> {
+    let mut component = Component::<CT>::from_str(label)?;
+    component.layer = component.layer.replace("%2F", "/").replace("%25", "%");
+    Ok(component)
+}
+
 fn write_edges<CT: ComponentType, W: std::io::Write>(
     graph: &Graph<CT>,
     writer: &mut Writer<W>,
@@ -215,6 +228,7 @@ fn write_edges<CT: ComponentType, W: std::io::Write>(
         if !autogenerated_components.contains(&c)
             && let Some(gs) = graph.get_graphstorage(&c)
         {
+            let component_label = component_to_label(&c);
             let source_nodes_iterator = if sorted {
                 Box::new(gs.source_nodes().sorted_unstable_by(compare_results))
             } else {
@@ -251,7 +265,7 @@ fn write_edges<CT: ComponentType, W: std::io::Write>(
                             edge_start.push_attribute(("source", source_id.as_ref()));
                             edge_start.push_attribute(("target", target_id.as_ref()));
                             // Use the "label" attribute as component type. This is consistent with how Neo4j interprets this non-standard attribute
-                            edge_start.push_attribute(("label", c.to_string().as_ref()));
+                            edge_start.push_attribute(("label", component_label.as_str()));
 
                             writer.write_event(Event::Start(edge_start))?;
 
@@ -497,7 +511,7 @@ fn add_edge<CT: ComponentType>(
         (current_source_id, current_target_id, current_component)
     {
         // Insert graph update for this edge
-        if let Ok(component) = Component::<CT>::from_str(component) {
+        if let Ok(component) = component_from_label::<CT>(component) {
             edge_updates.add_event(UpdateEvent::AddEdge {
                 source_node: source.clone(),
                 target_node: target.clone(),
-- 
2.43.0


From cca5b024d6fdc303d5206f645b5042e4f5a815f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 38/53] fix: inconsistent sort order of matches in documents
 with several texts or nodes without text

---
 graphannis/src/annis/db/sort_matches.rs | 103 ++++++++++++++++++------
 1 file changed, 79 insertions(+), 24 deletions(-)

diff --git a/graphannis/src/annis/db/sort_matches.rs b/graphannis/src/annis/db/sort_matches.rs
index 83fffb0..f97a180 100644
--- a/graphannis/src/annis/db/sort_matches.rs
+++ b/graphannis/src/annis/db/sort_matches.rs
@@ -21,6 +21,7 @@ pub(crate) struct SortCache {
     node_name: LruCache<NodeID, String>,
     left_token: LruCache<NodeID, Option<NodeID>>,
     is_connected: LruCache<(NodeID, NodeID), bool>,
+    first_token: LruCache<NodeID, NodeID>,
     gs_order: Option<Arc<dyn GraphStorage>>,
 }
 
@@ -32,10 +33,32 @@ impl SortCache {
             node_name: LruCache::new(CACHE_SIZE),
             left_token: LruCache::new(CACHE_SIZE),
             is_connected: LruCache::new(CACHE_SIZE),
+            first_token: LruCache::new(CACHE_SIZE),
             gs_order,
         }
     }
 
+    /// Get the first token of the text the given token belongs to.
+    fn first_token_of_text(
+        &mut self,
+        token: NodeID,
+        gs_order: &dyn GraphStorage,
+    ) -> Result<NodeID> {
+        if let Some(result) = self.first_token.get(&token) {
+            return Ok(*result);
+        }
+        let mut result = token;
+        for candidate in gs_order.find_connected_inverse(token, 1, std::ops::Bound::Unbounded) {
+            let candidate = candidate?;
+            if !gs_order.has_ingoing_edges(candidate)? {
+                result = candidate;
+                break;
+            }
+        }
+        self.first_token.put(token, result);
+        Ok(result)
+    }
+
     pub fn compare_matchgroup_by_text_pos(
         &mut self,
         m1: &[Match],
@@ -91,7 +114,7 @@ impl SortCache {
             };
 
             let m2_anno_val = if let Some(val) = self.node_name.get(&m2.node) {
-                Some(Cow::Borrowed(val.as_str()))
+                Some(Cow::Owned(val.clone()))
             } else {
                 let val = node_annos.get_value_for_item(&m2.node, &NODE_NAME_KEY)?;
                 if let Some(val) = &val {
@@ -111,7 +134,8 @@ impl SortCache {
                 }
 
                 // 2. compare the token ordering
-                if let (Some(token_helper), Some(gs_order)) = (token_helper, &self.gs_order) {
+                if let (Some(token_helper), Some(gs_order)) = (token_helper, self.gs_order.clone())
+                {
                     // Try to get left token from cache
 
                     let m1_lefttok = if let Some(lefttok) = self.left_token.get(&m1.node).copied() {
@@ -130,29 +154,60 @@ impl SortCache {
                         result
                     };
 
-                    if let (Some(m1_lefttok), Some(m2_lefttok)) = (m1_lefttok, m2_lefttok) {
-                        let token_are_connected =
-                            if let Some(v) = self.is_connected.get(&(m1_lefttok, m2_lefttok)) {
-                                *v
-                            } else {
-                                gs_order.is_connected(
-                                    m1_lefttok,
-                                    m2_lefttok,
-                                    1,
-                                    std::ops::Bound::Unbounded,
-                                )?
-                            };
-
-                        if token_are_connected {
-                            return Ok(Ordering::Less);
-                        } else if gs_order.is_connected(
-                            m2_lefttok,
-                            m1_lefttok,
-                            1,
-                            std::ops::Bound::Unbounded,
-                        )? {
-                            return Ok(Ordering::Greater);
+                    match (m1_lefttok, m2_lefttok) {
+                        (Some(m1_lefttok), Some(m2_lefttok)) if m1_lefttok != m2_lefttok => {
+                            let token_are_connected =
+                                if let Some(v) = self.is_connected.get(&(m1_lefttok, m2_lefttok)) {
+                                    *v
+                                } else {
+                                    gs_order.is_connected(
+                                        m1_lefttok,
+                                        m2_lefttok,
+                                        1,
+                                        std::ops::Bound::Unbounded,
+                                    )?
+                                };
+
+                            if token_are_connected {
+                                return Ok(Ordering::Less);
+                            } else if gs_order.is_connected(
+                                m2_lefttok,
+                                m1_lefttok,
+                                1,
+                                std::ops::Bound::Unbounded,
+                            )? {
+                                return Ok(Ordering::Greater);
+                            }
+
+                            // The token belong to different texts: do not mix the nodes of
+                            // these texts, because comparing some of the nodes by their token
+                            // order and others by their name is not a consistent ordering.
+                            let m1_first =
+                                self.first_token_of_text(m1_lefttok, gs_order.as_ref())?;
+                            let m2_first =
+                                self.first_token_of_text(m2_lefttok, gs_order.as_ref())?;
+                            if m1_first != m2_first {
+                                let m1_first_name =
+                                    node_annos.get_value_for_item(&m1_first, &NODE_NAME_KEY)?;
+                                let m2_first_name =
+                                    node_annos.get_value_for_item(&m2_first, &NODE_NAME_KEY)?;
+                                if let (Some(n1), Some(n2)) = (m1_first_name, m2_first_name) {
+                                    let text_cmp = compare_string(
+                                        split_path_and_nodename(&n1).1,
+                                        split_path_and_nodename(&n2).1,
+                                        collation,
+                                    );
+                                    if text_cmp != Ordering::Equal {
+                                        return Ok(text_cmp);
+                                    }
+                                }
+                                return Ok(m1_first.cmp(&m2_first));
+                            }
                         }
+                        // Nodes without any token are not part of a text
+                        (None, Some(_)) => return Ok(Ordering::Less),
+                        (Some(_), None) => return Ok(Ordering::Greater),
+                        _ => {}
                     }
                 }
 
-- 
2.43.0


From c701648545a6e3d02910044acabdc11736b6f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 39/53] fix: find() ignored errors of skipped matches and
 overflowed for huge limits

---
 graphannis/src/annis/db/corpusstorage.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 5e13dad..63febc2 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -424,6 +424,9 @@ fn new_vector_with_memory_aligned_capacity<T>(expected_len: usize) -> Vec<T> {
     Vec::with_capacity(aligned_memory_size / std::mem::size_of::<T>())
 }
 
+/// Maximum number of results to allocate memory for before knowing how many there are.
+const MAX_PREALLOCATED_RESULTS: usize = 10_000;
+
 type FindIterator<'a> = Box<dyn Iterator<Item = Result<MatchGroup>> + 'a>;
 
 impl CorpusStorage {
@@ -1867,7 +1870,7 @@ impl CorpusStorage {
 
                 let sort_size = if let Some(limit) = find_arguments.limit {
                     // we won't need to sort all items
-                    find_arguments.offset + limit
+                    find_arguments.offset.saturating_add(limit)
                 } else {
                     // sort all items if unlimited iterator is requested
                     tmp_results.len()
@@ -1937,14 +1940,20 @@ impl CorpusStorage {
         let mut results: Vec<String> = if let Some(expected_size) = expected_size {
             new_vector_with_memory_aligned_capacity(expected_size)
         } else if let Some(limit) = find_arguments.limit {
-            new_vector_with_memory_aligned_capacity(limit)
+            // The limit can be (much) larger than the actual number of results
+            new_vector_with_memory_aligned_capacity(limit.min(MAX_PREALLOCATED_RESULTS))
         } else {
             Vec::new()
         };
 
         // skip the first entries
         let mut skipped = 0;
-        while skipped < find_arguments.offset && base_it.next().is_some() {
+        while skipped < find_arguments.offset {
+            let Some(m) = base_it.next() else {
+                break;
+            };
+            // Do not hide errors of the skipped entries
+            m?;
             skipped += 1;
 
             if skipped % 1_000 == 0 {
-- 
2.43.0


From 0dd6184042bfc7660ae9b887e1b8ffd259c2da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 40/53] fix: gap edges of subgraphs depended on the result
 order and the loaded components

---
 graphannis/src/annis/db/corpusstorage.rs      |  7 ++-
 .../src/annis/db/corpusstorage/subgraph.rs    | 45 ++++++++++++-------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 63febc2..778bcdb 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2173,7 +2173,12 @@ impl CorpusStorage {
         component_type_filter: Option<AnnotationComponentType>,
     ) -> Result<AnnotationGraph> {
         let prep = self.prepare_query(corpus_name, query, query_language, |g| {
-            g.get_all_components(component_type_filter.clone(), None)
+            let mut components = g.get_all_components(component_type_filter.clone(), None);
+            if component_type_filter == Some(AnnotationComponentType::Ordering) {
+                // The gaps between the token are also part of the ordering
+                components.extend(token_helper::necessary_components(g));
+            }
+            components
         })?;
 
         let mut max_alt_size = 0;
diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index a9e2d30..05fa849 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -485,7 +485,8 @@ where
     );
     let token_helper = TokenHelper::new(orig_graph).ok();
 
-    let mut previous_token = None;
+    // All token of the result
+    let mut token: BTreeSet<NodeID> = BTreeSet::new();
 
     // create the subgraph description
     for r in it {
@@ -501,20 +502,7 @@ where
                     if let Some(token_helper) = &token_helper
                         && token_helper.is_token(m.node)?
                     {
-                        if let (Some(gs_ordering), Some(previous_node)) =
-                            (&gs_orig_ordering, previous_token)
-                            && let Some(distance) = gs_ordering.distance(previous_node, m.node)?
-                            && distance > 1
-                        {
-                            let gs_result_ds_ordering_ =
-                                result.get_or_create_writable(&ds_ordering_component)?;
-
-                            gs_result_ds_ordering_.add_edge(Edge {
-                                source: previous_node,
-                                target: m.node,
-                            })?;
-                        }
-                        previous_token = Some(m.node);
+                        token.insert(m.node);
                     }
 
                     create_subgraph_node(m.node, &mut result, orig_graph)?;
@@ -523,6 +511,33 @@ where
         }
     }
 
+    // Connect each token with the previous one in the result if there is a gap between them
+    if let Some(gs_ordering) = &gs_orig_ordering
+        && component_type_filter
+            .as_ref()
+            .is_none_or(|ctype| *ctype == AnnotationComponentType::Ordering)
+    {
+        for target in token.iter().copied() {
+            let mut visited = HashSet::new();
+            let mut current = target;
+            while let Some(source) = gs_ordering.get_ingoing_edges(current).next() {
+                let source = source?;
+                if token.contains(&source) {
+                    if current != target {
+                        result
+                            .get_or_create_writable(&ds_ordering_component)?
+                            .add_edge(Edge { source, target })?;
+                    }
+                    break;
+                }
+                if !visited.insert(source) {
+                    break;
+                }
+                current = source;
+            }
+        }
+    }
+
     let components = orig_graph.get_all_components(component_type_filter, None);
 
     for m in &match_result {
-- 
2.43.0


From 6613c0814f17f6e5009f8698af46455dbaba3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 41/53] fix: subgraph with segmentation context could lack the
 token of the match

---
 graphannis/src/annis/db/corpusstorage/subgraph.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index 05fa849..a943d51 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -131,6 +131,7 @@ fn get_left_right_token_with_offset_with_token(
 fn get_left_right_token_with_offset_with_segmentation(
     graph: &Graph<AnnotationComponentType>,
     token_helper: &TokenHelper,
+    token_ordering: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
     ctx_left: usize,
     ctx_right: usize,
@@ -212,12 +213,21 @@ fn get_left_right_token_with_offset_with_segmentation(
             break;
         }
     }
-    let left_token = token_helper
+    let mut left_token = token_helper
         .left_token_for(left_with_context)?
         .unwrap_or(left_most_covered_token);
-    let right_token = token_helper
+    let mut right_token = token_helper
         .right_token_for(right_with_context)?
         .unwrap_or(right_most_covered_token);
+    // Not all of the covered token need to be covered by a segmentation node,
+    // but they must be part of the result
+    let unbounded = std::ops::Bound::Unbounded;
+    if token_ordering.is_connected(left_most_covered_token, left_token, 1, unbounded)? {
+        left_token = left_most_covered_token;
+    }
+    if token_ordering.is_connected(right_token, right_most_covered_token, 1, unbounded)? {
+        right_token = right_most_covered_token;
+    }
     Ok((left_token, right_token))
 }
 
@@ -280,6 +290,7 @@ impl<'a> TokenRegion<'a> {
             get_left_right_token_with_offset_with_segmentation(
                 graph,
                 &token_helper,
+                ordering_edges.as_ref(),
                 &covered_token,
                 ctx_left,
                 ctx_right,
-- 
2.43.0


From cedd7e15d8e3c1272aa8aaa2993510eb26e6fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 42/53] fix: endless loop in parallel nested loop join when an
 input reports a timeout

---
 .../src/annis/db/exec/parallel/nestedloop.rs  | 112 +++++++-----------
 1 file changed, 44 insertions(+), 68 deletions(-)

diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index ac6fc72..18ecd74 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -134,91 +134,67 @@ impl<'a> NestedLoop<'a> {
         Ok(self.current_outer.as_ref().cloned())
     }
 
-    fn next_match_buffer(&mut self, tx: &Sender<Result<MatchGroup>>) {
+    /// Fill the candidate buffer. This stops at the first error, because an
+    /// input iterator can return the same error (e.g. a timeout) forever.
+    fn next_match_buffer(&mut self, tx: &Sender<Result<MatchGroup>>) -> Result<()> {
         self.match_candidate_buffer.clear();
 
         while self.match_candidate_buffer.len() < MAX_BUFFER_SIZE {
-            match self.peek_outer() {
-                Ok(m_outer) => {
-                    if let Some(m_outer) = m_outer {
-                        if self.pos_inner_cache.is_some() {
-                            let mut cache_pos = self.pos_inner_cache.unwrap();
-
-                            while cache_pos < self.inner_cache.len() {
-                                let m_inner = &self.inner_cache[cache_pos];
-                                cache_pos += 1;
-                                self.pos_inner_cache = Some(cache_pos);
-
-                                self.match_candidate_buffer.push((
-                                    m_outer.clone(),
-                                    m_inner.clone(),
-                                    tx.clone(),
-                                ));
-
-                                if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
-                                    return;
-                                }
-                            }
-                        } else {
-                            for m_inner in &mut self.inner {
-                                match m_inner {
-                                    Ok(m_inner) => {
-                                        let m_inner: Arc<MatchGroup> = Arc::from(m_inner);
-
-                                        self.inner_cache.push(m_inner.clone());
-
-                                        self.match_candidate_buffer.push((
-                                            m_outer.clone(),
-                                            m_inner,
-                                            tx.clone(),
-                                        ));
-
-                                        if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
-                                            return;
-                                        }
-                                    }
-                                    Err(e) => {
-                                        if tx.send(Err(e)).is_err() {
-                                            return;
-                                        }
-                                    }
-                                };
-                            }
+            if let Some(m_outer) = self.peek_outer()? {
+                if self.pos_inner_cache.is_some() {
+                    let mut cache_pos = self.pos_inner_cache.unwrap();
+
+                    while cache_pos < self.inner_cache.len() {
+                        let m_inner = &self.inner_cache[cache_pos];
+                        cache_pos += 1;
+                        self.pos_inner_cache = Some(cache_pos);
+
+                        self.match_candidate_buffer.push((
+                            m_outer.clone(),
+                            m_inner.clone(),
+                            tx.clone(),
+                        ));
+
+                        if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
+                            return Ok(());
                         }
-                        // inner was completed once, use cache from now, or reset to first item once completed
-                        self.pos_inner_cache = Some(0)
                     }
-                }
-                Err(e) => {
-                    if tx.send(Err(e)).is_err() {
-                        return;
+                } else {
+                    for m_inner in &mut self.inner {
+                        let m_inner: Arc<MatchGroup> = Arc::from(m_inner?);
+
+                        self.inner_cache.push(m_inner.clone());
+
+                        self.match_candidate_buffer
+                            .push((m_outer.clone(), m_inner, tx.clone()));
+
+                        if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
+                            return Ok(());
+                        }
                     }
                 }
+                // inner was completed once, use cache from now, or reset to first item once completed
+                self.pos_inner_cache = Some(0)
             }
 
             // consume next outer
             self.current_outer = None;
-            match self.peek_outer() {
-                Ok(next_outer) => {
-                    if next_outer.is_none() {
-                        return;
-                    }
-                }
-                Err(e) => {
-                    if tx.send(Err(e)).is_err() {
-                        return;
-                    }
-                }
-            };
+            if self.peek_outer()?.is_none() {
+                return Ok(());
+            }
         }
+        Ok(())
     }
 
     fn next_match_receiver(&mut self) -> Option<Receiver<Result<MatchGroup>>> {
         let (tx, rx) = channel();
 
-        self.next_match_buffer(&tx);
-
-        if self.match_candidate_buffer.is_empty() {
+        if let Err(e) = self.next_match_buffer(&tx) {
+            // also report the error when there are no candidates
+            if let Err(e) = tx.send(Err(e)) {
+                trace!("Could not send error in parallel nested loop: {}", e);
+            }
+        } else if self.match_candidate_buffer.is_empty() {
             return None;
         }
 
-- 
2.43.0


From 9f318b80278c9ab768a9790dc9931f2cbf2d8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 43/53] fix: overflow and failing allocation in find() for
 queries with a large estimated output size

---
 graphannis/src/annis/db/corpusstorage.rs | 8 +++++++-
 graphannis/src/annis/db/plan.rs          | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 778bcdb..8955748 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -72,6 +72,9 @@ mod tests;
 /// After how many produces tuples the timeout check should be manually triggered (in case the underlying joint did not already check the timeout)
 const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 
+/// Initial capacity limit of the temporary container used to sort the results.
+const MAX_INITIAL_RESULT_CAPACITY: usize = 100_000;
+
 /// Prefix for directories inside the database directory that are not the directory of a corpus.
 const TEMPORARY_DIRECTORY_PREFIX: &str = "temporary graphannis ";
 
@@ -1790,7 +1793,10 @@ impl CorpusStorage {
             // if quirks mode is active.
             Box::from(plan)
         } else {
-            let estimated_result_size = plan.estimated_output_size();
+            // The estimation can be much larger than the actual number of matches
+            // and it must not be possible that the allocation fails because of this.
+            let estimated_result_size =
+                std::cmp::min(plan.estimated_output_size(), MAX_INITIAL_RESULT_CAPACITY);
             let btree_config = BtreeConfig::default()
                 .fixed_key_size(size_of::<usize>())
                 .max_value_size(512);
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index fba4247..16cc44e 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -141,10 +141,10 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     pub fn estimated_output_size(&self) -> usize {
-        let mut estimation = 0;
+        let mut estimation: usize = 0;
         for desc in self.descriptions.iter().flatten() {
             if let Some(cost) = &desc.cost {
-                estimation += cost.output;
+                estimation = estimation.saturating_add(cost.output);
             }
         }
         estimation
-- 
2.43.0


From 9065d59cb74ac1915406bebcd3337d185db46c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:39 +0000
Subject: [PATCH 44/53] fix: exporting to a ZIP file failed when a linked file
 does not exist

---
 graphannis/src/annis/db/corpusstorage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 8955748..c9bdfb1 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1365,6 +1365,11 @@ impl CorpusStorage {
                 let (node_name, original_path) = file?;
                 let node_name: String = node_name;
 
+                // Linked files which do not exist are not part of the export
+                if !original_path.is_file() {
+                    continue;
+                }
+
                 zip.start_file(base_path.join(&node_name).to_string_lossy(), options)?;
                 let file_to_copy = File::open(original_path)?;
                 let mut reader = BufReader::new(file_to_copy);
-- 
2.43.0


From 73f29400da68300f60f3ff1583ab9ad65cceecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 45/53] fix: meta conditions of queries in quirks mode never
 matched

---
 graphannis/src/annis/db/aql/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index dfaa29e..4d89530 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -383,14 +383,16 @@ fn add_legacy_metadata_constraints(
                 )?;
             } else if let Some(first_node_var) = first_node_var.clone() {
                 first_meta_var = Some(meta_node_var.clone());
-                // add a special join to the first node of the query
+                // Add a special join to the first node of the query. The
+                // document is matched by several artificial nodes, so it must
+                // not be required that they are all different.
                 q.add_operator(
                     Arc::new(PartOfSubCorpusSpec {
                         dist: RangeSpec::Unbound,
                     }),
                     &first_node_var,
                     &meta_node_var,
-                    true,
+                    false,
                 )?;
                 // Also make sure the matched node is actually a document
                 // (the @* could match anything in the hierarchy, including the toplevel corpus)
-- 
2.43.0


From 75aa0a434fc313651a9b67a017513663214dab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:27 +0000
Subject: [PATCH 46/53] fix: queries with meta conditions in quirks mode could
 return the same match several times

---
 graphannis/src/annis/db/aql/conjunction.rs | 8 ++++++++
 graphannis/src/annis/db/plan.rs            | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 721ff61..9751bc6 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -404,6 +404,14 @@ impl Conjunction {
             .is_some_and(|n| self.is_included_in_output(&n.var))
     }
 
+    /// Return true if there are matched nodes which are not part of the match
+    /// output. Different combinations of nodes can have the same output then.
+    pub(crate) fn has_hidden_nodes(&self) -> bool {
+        self.nodes
+            .iter()
+            .any(|n| !n.optional && !self.is_included_in_output(&n.var))
+    }
+
     /// Get the position of a variable in the match output of this conjunction.
     pub(crate) fn get_output_pos(&self, variable: &str) -> Option<usize> {
         let pos = *self.variables.get(variable)?;
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 16cc44e..a7d85c0 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -85,12 +85,15 @@ impl<'a> ExecutionPlan<'a> {
             descriptions.push(None);
         }
         let btree_config = BtreeConfig::default().fixed_value_size(std::mem::size_of::<bool>());
+        // The matches of a single alternative are already unique, unless some of
+        // the matched nodes are not part of the output.
+        let proxy_mode = plans.len() == 1 && !alternatives.iter().any(|alt| alt.has_hidden_nodes());
         Ok(ExecutionPlan {
             current_plan: 0,
             descriptions,
             inverse_node_pos,
             alternatives,
-            proxy_mode: plans.len() == 1,
+            proxy_mode,
             plans,
             unique_result_set: BtreeIndex::with_capacity(btree_config, 10_000)?,
             anno_key_symbols: SymbolTable::new(),
-- 
2.43.0


From 3feec9f08ea14f31146cae70732588297ca25e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 47/53] fix: tokens without the optional expiration date were
 rejected by the web service

---
 webservice/src/extractors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/webservice/src/extractors.rs b/webservice/src/extractors.rs
index c73a73e..afe9cca 100644
--- a/webservice/src/extractors.rs
+++ b/webservice/src/extractors.rs
@@ -7,7 +7,10 @@ pub struct ClaimsFromAuth(pub Claims);
 fn verify_token(token: &str, settings: &Settings) -> Result<Claims, ServiceError> {
     let key = settings.auth.token_verification.create_decoding_key()?;
 
-    let validation = jsonwebtoken::Validation::new(settings.auth.token_verification.as_algorithm());
+    let mut validation =
+        jsonwebtoken::Validation::new(settings.auth.token_verification.as_algorithm());
+    // The expiration date is optional (but validated if given)
+    validation.required_spec_claims.clear();
 
     match jsonwebtoken::decode::<Claims>(token, &key, &validation) {
         Ok(token) => Ok(token.claims),
-- 
2.43.0


From 01971e586348c91a25527826f4cad6058de5c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:36 +0000
Subject: [PATCH 48/53] fix: web service looked for linked files of corpora
 with special names in the wrong directory (also outside of the data
 directory)

---
 webservice/src/api/corpora.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/webservice/src/api/corpora.rs b/webservice/src/api/corpora.rs
index 2011742..a5c3c5d 100644
--- a/webservice/src/api/corpora.rs
+++ b/webservice/src/api/corpora.rs
@@ -10,6 +10,7 @@ use graphannis::{
 use percent_encoding::{AsciiSet, CONTROLS, utf8_percent_encode};
 use std::{borrow::Cow, path::PathBuf};
 
+/// Encoding set for the directory of a corpus, must be the same as in the corpus storage.
 pub const PATH_SEGMENT_ENCODE_SET: &AsciiSet = &CONTROLS
     .add(b' ')
     .add(b'"')
@@ -21,7 +22,24 @@ pub const PATH_SEGMENT_ENCODE_SET: &AsciiSet = &CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'%')
-    .add(b'/');
+    .add(b'/')
+    .add(b':')
+    .add(b'|')
+    .add(b'*')
+    .add(b'\\');
+
+/// Get the directory with the linked files of a corpus.
+fn linked_files_dir(settings: &Settings, corpus: &str) -> PathBuf {
+    let escaped_corpus_name: Cow<str> = match corpus {
+        // these names have a special meaning for the file system
+        "." => "%2E".into(),
+        ".." => "%2E%2E".into(),
+        _ => utf8_percent_encode(corpus, PATH_SEGMENT_ENCODE_SET).into(),
+    };
+    PathBuf::from(settings.database.graphannis.as_str())
+        .join(escaped_corpus_name.as_ref())
+        .join("files")
+}
 
 pub async fn list(
     cs: web::Data<CorpusStorage>,
@@ -252,13 +270,8 @@ pub async fn list_files(
     check_corpora_authorized_read(vec![corpus.clone()], claims.0, &settings, &db_pool).await?;
 
     let mut found_files = Vec::default();
-    let escaped_corpus_name: Cow<str> =
-        utf8_percent_encode(&corpus, PATH_SEGMENT_ENCODE_SET).into();
     // Get the base path
-    let base_path = PathBuf::from(settings.database.graphannis.as_str())
-        .join(escaped_corpus_name.to_string())
-        .join("files")
-        .canonicalize()?;
+    let base_path = linked_files_dir(&settings, &corpus).canonicalize()?;
 
     // if the node name is set, restrict the search to the subfolder with the same ID, otherwise use the corpus ID
     let search_path = if let Some(node) = &params.node {
@@ -319,12 +332,7 @@ pub async fn file_content(
     }
 
     // Resolve against data folder
-    let escaped_corpus_name: Cow<str> =
-        utf8_percent_encode(&corpus, PATH_SEGMENT_ENCODE_SET).into();
-    let path = PathBuf::from(settings.database.graphannis.as_str())
-        .join(escaped_corpus_name.to_string())
-        .join("files")
-        .join(file_path);
+    let path = linked_files_dir(&settings, &corpus).join(file_path);
 
     Ok(NamedFile::open(path)?)
 }
-- 
2.43.0


From 5cc39e1018b6376d0742fa0947626fa7299a2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:36 +0000
Subject: [PATCH 49/53] fix: web service did not list all linked files of a
 corpus when its root node has another name

---
 webservice/src/api/corpora.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/webservice/src/api/corpora.rs b/webservice/src/api/corpora.rs
index a5c3c5d..d9dab9e 100644
--- a/webservice/src/api/corpora.rs
+++ b/webservice/src/api/corpora.rs
@@ -273,7 +273,7 @@ pub async fn list_files(
     // Get the base path
     let base_path = linked_files_dir(&settings, &corpus).canonicalize()?;
 
-    // if the node name is set, restrict the search to the subfolder with the same ID, otherwise use the corpus ID
+    // if the node name is set, restrict the search to the subfolder with the same ID
     let search_path = if let Some(node) = &params.node {
         // Perform some sanity checks to make sure only the relative sub-folder is used
         let file_path = node.trim();
@@ -288,7 +288,7 @@ pub async fn list_files(
         };
         base_path.join(file_path)
     } else {
-        base_path.join(corpus.as_ref())
+        base_path.clone()
     };
 
     // List all files in the search path
-- 
2.43.0


From 12a7c5a464d1f612233e3ab95db384af614cdb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:28 +0000
Subject: [PATCH 50/53] fix: keep linked files inside the folder of the corpus
 or the export for any node name

---
 graphannis/src/annis/db/corpusstorage.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index c9bdfb1..80cb023 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1149,7 +1149,7 @@ impl CorpusStorage {
                     && let Some(node_name) = node_annos.get_value_for_item(&node, &NODE_NAME_KEY)?
                 {
                     // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(node_name.as_ref());
+                    let new_path = new_base_path.join(linked_file_path(&node_name));
                     debug!(
                         "Copying file from {} to {}",
                         original_path.as_path().to_string_lossy(),
@@ -1240,7 +1240,7 @@ impl CorpusStorage {
                 let node_name: String = node_name;
                 if original_path.is_file() {
                     // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(&node_name);
+                    let new_path = new_base_path.join(linked_file_path(&node_name));
                     if let Some(parent) = new_path.parent() {
                         std::fs::create_dir_all(parent)?;
                     }
@@ -1370,7 +1370,8 @@ impl CorpusStorage {
                     continue;
                 }
 
-                zip.start_file(base_path.join(&node_name).to_string_lossy(), options)?;
+                let path_in_zip = base_path.join(linked_file_path(&node_name));
+                zip.start_file(path_in_zip.to_string_lossy(), options)?;
                 let file_to_copy = File::open(original_path)?;
                 let mut reader = BufReader::new(file_to_copy);
                 std::io::copy(&mut reader, zip)?;
@@ -2841,6 +2842,22 @@ fn get_corpus_cache_info_as_string(
     Ok(result)
 }
 
+/// Get the relative path under which the linked file of a node is stored.
+///
+/// The path is based on the node name. Empty parts of the name and the parts "." and ".." have a
+/// special meaning in paths and are encoded, so the file is never outside of the base directory.
+fn linked_file_path(node_name: &str) -> PathBuf {
+    node_name
+        .split('/')
+        .map(|part| match part {
+            "" => "%2F",
+            "." => "%2E",
+            ".." => "%2E%2E",
+            part => part,
+        })
+        .collect()
+}
+
 fn extract_subgraph_by_query(
     db_entry: &Arc<RwLock<CacheEntry>>,
     query: &Disjunction,
-- 
2.43.0


From 67b4e1894c515a10801145f9ffcc18614e3dbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:31 +0000
Subject: [PATCH 51/53] fix: root node of relANNIS corpora was not connected to
 the corpus structure if its name must be encoded

---
 graphannis/src/annis/db/relannis.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index e05e93c..0dff670 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -2039,14 +2039,18 @@ fn add_subcorpora(
 ) -> Result<()> {
     // add the toplevel corpus as node
     {
+        // the name must be encoded the same way as in the paths of the sub-corpora and documents
+        let toplevel_node_name =
+            utf8_percent_encode(&corpus_table.toplevel_corpus_name, NODE_NAME_ENCODE_SET)
+                .to_string();
         updates.add_event(UpdateEvent::AddNode {
-            node_name: corpus_table.toplevel_corpus_name.as_str().into(),
+            node_name: toplevel_node_name.clone(),
             node_type: "corpus".into(),
         })?;
 
         // save the relANNIS version as meta data attribute on the toplevel corpus
         updates.add_event(UpdateEvent::AddNodeLabel {
-            node_name: corpus_table.toplevel_corpus_name.as_str().into(),
+            node_name: toplevel_node_name.clone(),
             anno_ns: ANNIS_NS.to_owned(),
             anno_name: "relannis-version".to_owned(),
             anno_value: if is_annis_33 {
@@ -2068,7 +2072,7 @@ fn add_subcorpora(
             for ((entry_cid, anno_key), val) in corpus_id_to_annos.range(start_key..) {
                 if entry_cid == cid {
                     updates.add_event(UpdateEvent::AddNodeLabel {
-                        node_name: corpus_table.toplevel_corpus_name.clone(),
+                        node_name: toplevel_node_name.clone(),
                         anno_ns: anno_key.ns.clone(),
                         anno_name: anno_key.name.clone(),
                         anno_value: val.into(),
@@ -2077,7 +2081,7 @@ fn add_subcorpora(
                     break;
                 }
             }
-            add_external_data_files(path, &corpus_table.toplevel_corpus_name, None, updates)?;
+            add_external_data_files(path, &toplevel_node_name, None, updates)?;
         }
     }
 
-- 
2.43.0


From 1b6ef7edf02d0d7ac77cc55f60acbe8803bb0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:31 +0000
Subject: [PATCH 52/53] fix: last character of the text before the first token
 was lost in the relANNIS import

---
 graphannis/src/annis/db/relannis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index 0dff670..9de3a38 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -1276,7 +1276,7 @@ where
                     let mut covered_text_before =
                         std::string::String::with_capacity(token_left_char - current_text_offset);
                     let mut skipped_before_token = 0;
-                    for _ in current_text_offset..(token_left_char - 1) {
+                    for _ in current_text_offset..token_left_char {
                         if let Some(c) = text_char_it.next() {
                             covered_text_before.push(c);
                             skipped_before_token += 1;
-- 
2.43.0


From 72403f72e3fbb0f64160eea595cfe6e5e0d5d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:31 +0000
Subject: [PATCH 53/53] fix: import of relANNIS corpora panicked if the
 context-steps property is zero

---
 graphannis/src/annis/db/relannis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index 9de3a38..40a736d 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -706,6 +706,7 @@ where
 
             if let "context-steps" = key
                 && let Ok(value) = value.parse::<usize>()
+                && value > 0
             {
                 config.context.sizes = (value..=config.context.max.unwrap_or(value))
                     .step_by(value)
-- 
2.43.0

