From 4dabe5ac82144f9b41c4ac4873f0d88cbd63834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 01/49] fix: report the unknown port itself in
 PortGraph::link_ports errors

---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..1336039 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -763,7 +763,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From 83e52037a27897802fc0551c71465ee8a086ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 02/49] fix: keep the free node list consistent when swapping
 nodes with empty spaces

---
 src/portgraph.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 1336039..370d750 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -616,6 +616,11 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            // Swapping empty spaces is a no-op. Moving the entries around would
+            // break the links between adjacent elements of the free list.
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -633,8 +638,11 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // Update the free node linked list, only if we swapping empty and
         // non-empty spaces.
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
-            if let Some(prev) = entry.prev.to_option() {
-                self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            match entry.prev.to_option() {
+                Some(prev) => {
+                    self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+                }
+                None => self.node_free = new_node.into(),
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From 93d36f4091cbc75c98e1df296e6ad8dc96066aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 03/49] fix: do not allocate a port slab when resizing a node
 to zero ports

---
 src/portgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 370d750..77bca42 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -558,7 +558,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = match new_total {
+            0 => 0,
+            _ => new_total.next_power_of_two(),
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From 81a265a34af2c259cddfc39f3b80dbd69c00601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:28 +0000
Subject: [PATCH 04/49] fix: cap the port over-allocation of set_num_ports to
 the maximum slab size

---
 src/portgraph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 77bca42..75d4308 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -526,6 +526,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         );
 
         let new_total = incoming + outgoing;
+        assert!(
+            new_total <= NodeMeta::MAX_CAPACITY,
+            "Total port count exceeds maximum."
+        );
 
         let Some(node_meta) = self.node_meta_valid(node) else {
             return;
@@ -560,7 +564,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // TODO: Fine-tune overallocation factor
         let target_capacity = match new_total {
             0 => 0,
-            _ => new_total.next_power_of_two(),
+            _ => new_total.next_power_of_two().min(NodeMeta::MAX_CAPACITY),
         };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
@@ -835,6 +839,8 @@ impl NodeMeta {
     const MAX_INCOMING: usize = u16::MAX as usize - 1;
     /// The maximum number of outgoing ports for a node.
     const MAX_OUTGOING: usize = u16::MAX as usize;
+    /// The maximum number of ports that can be allocated for a node.
+    const MAX_CAPACITY: usize = u16::MAX as usize;
 
     #[inline]
     pub fn new(first_port: PortIndex, incoming: u16, outgoing: u16, capacity: u16) -> Self {
-- 
2.43.0


From 8c86363a213cbe905211bcfa825d30a6747e74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:01 +0000
Subject: [PATCH 05/49] fix: return a connected subport from
 MultiPortGraph::unlink_port

---
 src/multiportgraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..49d402b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -320,7 +320,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
             self.remove_copy_node(port, link)
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
@@ -381,7 +382,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
+        let link = self.graph.links(copy_node, dir.reverse()).next();
         let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
-- 
2.43.0


From aae9bb0e46719e6ed4372e8f448355f25222f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:01 +0000
Subject: [PATCH 06/49] fix: drop the copy nodes of removed multiports before
 resizing a node

---
 src/multiportgraph.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 49d402b..7c28691 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -15,6 +15,7 @@ use crate::{
 use delegate::delegate;
 
 use bitvec::vec::BitVec;
+use std::collections::HashMap;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -222,23 +223,33 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        let mut dropped_ports = Vec::new();
-        let rekey_wrapper = |port, op| {
-            match op {
-                PortOperation::Removed { old_link } => {
-                    if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
-                    }
-                }
-                PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
+        // Disconnect the ports that are going to be removed (and drop their copy
+        // nodes) before resizing the node, while the port indices are still valid.
+        let removed_ports: Vec<PortIndex> = self
+            .graph
+            ._inputs(node)
+            .skip(incoming)
+            .chain(self.graph._outputs(node).skip(outgoing))
+            .collect();
+        let mut old_links: HashMap<PortIndex, PortIndex> = HashMap::new();
+        for port in removed_ports {
+            if let Some(old_link) = self.unlink_port(port) {
+                old_links.insert(port, old_link.port());
             }
-            rekey(port, op);
-        };
-        self.graph
-            .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
         }
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |port, op| {
+                let op = match op {
+                    PortOperation::Removed { .. } => PortOperation::Removed {
+                        old_link: old_links.get(&port).copied(),
+                    },
+                    PortOperation::Moved { new_index } => {
+                        self.multiport.swap(port, new_index);
+                        op
+                    }
+                };
+                rekey(port, op);
+            });
     }
 
     fn compact_nodes<F>(&mut self, mut rekey: F)
-- 
2.43.0


From 86dfea0b433a964f83bd33df81a7ef38a2dc6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 07/49] fix: leave the MultiPortGraph unchanged when link_ports
 fails

---
 src/multiportgraph.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 7c28691..770a5bb 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -317,6 +317,21 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        // Check for errors before allocating any subports.
+        let Some(dir_a) = self.main_port_direction(port_a) else {
+            return Err(LinkError::UnknownPort { port: port_a });
+        };
+        let Some(dir_b) = self.main_port_direction(port_b) else {
+            return Err(LinkError::UnknownPort { port: port_b });
+        };
+        if dir_a == dir_b {
+            return Err(LinkError::IncompatibleDirections {
+                port_a,
+                port_b,
+                dir: dir_a,
+            });
+        }
+
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
@@ -554,6 +569,15 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         self.graph.port_link(internal_copy_port)
     }
 
+    /// Returns the direction of a port, if it belongs to a main node.
+    #[inline]
+    fn main_port_direction(&self, port: PortIndex) -> Option<Direction> {
+        if !self.contains_port(port) {
+            return None;
+        }
+        self.graph.port_direction(port)
+    }
+
     /// Returns whether the port is marked as multiport.
     ///
     /// That is, this port is part of the connection between a main port and a copy node.
-- 
2.43.0


From d7f62fc9a789161a975cc5db4a12fcc415e9c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 08/49] fix: ignore indices hidden in copy nodes in
 MultiPortGraph mutators

---
 src/multiportgraph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 770a5bb..68d267a 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -195,7 +195,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn remove_node(&mut self, node: NodeIndex) {
-        debug_assert!(!self.copy_node.get(node));
+        if self.is_copy_node(node) {
+            // Copy nodes are not part of the graph.
+            return;
+        }
         for port in self.graph._all_ports(node) {
             if *self.multiport.get(port) {
                 self.unlink_port(port);
@@ -339,6 +342,9 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn unlink_port(&mut self, port: PortIndex) -> Option<SubportIndex> {
+        if !self.contains_port(port) {
+            return None;
+        }
         if self.is_multiport(port) {
             let link = self
                 .graph
-- 
2.43.0


From dcf99c7c772ea61fceb6679ed126ae0cc71f74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 09/49] fix: reject subports that do not exist in
 MultiPortGraph

---
 src/multiportgraph.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 68d267a..05235c6 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -382,12 +382,16 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
         subport_to: SubportIndex,
     ) -> Result<(), LinkError<PO>> {
         // TODO: Custom errors
-        let from_index = self
-            .get_subport_index(subport_from)
-            .expect("subport_from does not exist");
-        let to_index = self
-            .get_subport_index(subport_to)
-            .expect("subport_to does not exist");
+        let Some(from_index) = self.get_subport_index(subport_from) else {
+            return Err(LinkError::UnknownPort {
+                port: subport_from.port(),
+            });
+        };
+        let Some(to_index) = self.get_subport_index(subport_to) else {
+            return Err(LinkError::UnknownPort {
+                port: subport_to.port(),
+            });
+        };
         self.graph.link_ports(from_index, to_index)?;
         Ok(())
     }
@@ -610,13 +614,17 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
     /// If the port is not a multiport, returns the port index in the operation node.
     fn get_subport_index(&self, subport: SubportIndex) -> Option<PortIndex> {
         let port_index = subport.port();
+        if !self.contains_port(port_index) {
+            return None;
+        }
         if self.is_multiport(port_index) {
             let copy_node = self.get_copy_node(port_index)?;
             let dir = self.graph.port_direction(port_index)?;
             let subport_offset = PortOffset::new(dir, subport.offset());
             self.graph.port_index(copy_node, subport_offset)
         } else {
-            Some(port_index)
+            // Unless a copy node is present, the port has a single subport.
+            (subport.offset() == 0).then_some(port_index)
         }
     }
 
-- 
2.43.0


From fd4a9cf567a214f64ddf635556dda9a7d3b7ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 10/49] fix: do not promise a link for disconnected ports in
 PortLinks::size_hint

---
 src/multiportgraph/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph/iter.rs b/src/multiportgraph/iter.rs
index ccd58d2..2f26dc9 100644
--- a/src/multiportgraph/iter.rs
+++ b/src/multiportgraph/iter.rs
@@ -371,7 +371,7 @@ impl<PO: Unsigned> FusedIterator for NodeConnections<'_, PO> {}
 #[derive(Debug, Clone)]
 #[allow(missing_docs)]
 pub enum PortLinks<'a, PO: Unsigned> {
-    /// The port is not a multiport. The iterator returns exactly one link.
+    /// The port is not a multiport. The iterator returns at most one link.
     SinglePort {
         multigraph: &'a MultiPortGraph<u32, u32, PO>,
         port: PortIndex,
@@ -460,7 +460,7 @@ impl<PO: Unsigned> Iterator for PortLinks<'_, PO> {
                 if *empty {
                     (0, Some(0))
                 } else {
-                    (1, Some(1))
+                    (0, Some(1))
                 }
             }
             PortLinks::Multiport { subports, .. } => (0, Some(subports.len())),
-- 
2.43.0


From 97a995b8f07c352a1dd7760b771769693308af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 11/49] fix: reject attaching a node to itself in Hierarchy

---
 src/hierarchy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..c962dbb 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,6 +273,11 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
+        // A node cannot be its own parent.
+        if node == parent {
+            return false;
+        }
+
         // When `node` does not have any children it can't contain `parent`.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-- 
2.43.0


From 38d458d019b86c393ee0df03251d74eb66ed6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 12/49] fix: accept rekeying a Hierarchy node to its current
 index

---
 src/hierarchy.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index c962dbb..4b4f156 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -473,12 +473,12 @@ impl Hierarchy {
     ///
     /// Panics if the index `new` is not a root without any children.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 43bbb35766a4ad87e96d31d3a90a299abe3b54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 13/49] fix: report the main ports in
 MultiPortGraph::link_subports errors

---
 src/multiportgraph.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 05235c6..5e68a8e 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -392,7 +392,27 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
                 port: subport_to.port(),
             });
         };
-        self.graph.link_ports(from_index, to_index)?;
+        self.graph
+            .link_ports(from_index, to_index)
+            .map_err(|err| match err {
+                // Do not expose the internal subport indices.
+                LinkError::AlreadyLinked { port } if port == from_index => {
+                    LinkError::AlreadyLinked {
+                        port: subport_from.port(),
+                    }
+                }
+                LinkError::AlreadyLinked { .. } => LinkError::AlreadyLinked {
+                    port: subport_to.port(),
+                },
+                LinkError::IncompatibleDirections { dir, .. } => {
+                    LinkError::IncompatibleDirections {
+                        port_a: subport_from.port(),
+                        port_b: subport_to.port(),
+                        dir,
+                    }
+                }
+                err => err,
+            })?;
         Ok(())
     }
 
-- 
2.43.0


From d0f0ee798b18f8339ec304f79aebd1f74fdb48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:03 +0000
Subject: [PATCH 14/49] fix: leave the map's own default behind in
 UnmanagedDenseMap::rekey

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..3838784 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,8 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let default = self.default.clone();
+            let val = mem::replace(self.get_mut(old), default);
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +174,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From 4917ce69580ec6ccc794808fda47a2aed82d6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 15/49] fix: count each link once in FilteredGraph::link_count

---
 src/view/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..31aafb2 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
-- 
2.43.0


From 1d56d551f5393a76c66a272eddfd11e17076f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 16/49] fix: apply the node filter in
 FilteredGraph::subport_link

---
 src/view/filter.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index 31aafb2..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From 586d26e38852efa2a0b669522d1ffbbabe4fb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 17/49] fix: report rootless FlatRegions without children as
 empty

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..820604d 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        !self.include_root && !self.hierarchy.has_children(self.region_root)
     }
 
     #[inline]
-- 
2.43.0


From 6282c122ae51849b9b18507517b38d537ead592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 18/49] fix: keep the root in the descendants cache when
 cloning a locked Region

---
 src/view/region.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..1ecb50f 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -33,16 +33,22 @@ where
     /// Create a new [`Region`] looking at a `root` node and its descendants in
     /// a [`Hierarchy`].
     pub fn new(graph: G, hierarchy: &'g Hierarchy, root: NodeIndex) -> Self {
-        let mut is_descendant = HashMap::new();
-        is_descendant.insert(root, false);
         Self {
             graph,
             region_root: root,
             hierarchy,
-            is_descendant: RwLock::new(is_descendant),
+            is_descendant: RwLock::new(Self::new_cache(root)),
         }
     }
 
+    /// Create a new cache for the [`is_descendant`] checks.
+    ///
+    /// The root is always present in the cache, so ancestor traversals stop
+    /// when they reach it.
+    fn new_cache(root: NodeIndex) -> HashMap<NodeIndex, bool> {
+        HashMap::from([(root, false)])
+    }
+
     /// Check if a node is a descendant of the root node.
     ///
     /// Caches the result of the check.
@@ -131,7 +137,7 @@ impl<G: Clone> Clone for Region<'_, G> {
         // Otherwise, create a new empty cache.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => Self::new_cache(self.region_root),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0


From 017b03c42104f5adefff3410fe865c8c8f1dd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 19/49] fix: follow every link of a multiport when exploring a
 boundary

---
 src/boundary.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 92c04a6..bbdfbdd 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -305,20 +305,16 @@ impl Boundary {
         &self,
         graph: &'g impl LinkView,
     ) -> impl Iterator<Item = NodeIndex> + 'g {
-        // For every visited edge, we mark both ports as visited
+        // Edges incident to any of these ports are not followed.
+        let boundary_ports: BTreeSet<PortIndex> = self.port_indices().collect();
+
+        // The nodes that have already been returned.
         let mut visited = BTreeSet::new();
 
         // The set of nodes to traverse
-        let mut nodes_to_process: BTreeSet<_> = self
-            .port_indices()
-            .map(|p| {
-                let this_node = graph.port_node(p).unwrap();
-                if let Some(other_port) = graph.port_link(p) {
-                    visited.insert(other_port.into());
-                }
-                visited.insert(p);
-                this_node
-            })
+        let mut nodes_to_process: BTreeSet<_> = boundary_ports
+            .iter()
+            .map(|&p| graph.port_node(p).unwrap())
             .collect();
 
         if nodes_to_process.is_empty() {
@@ -327,14 +323,19 @@ impl Boundary {
         }
 
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
-            // Traverse every unvisited edge in `node`
+            visited.insert(node);
+            // Traverse every non-boundary edge in `node`
             for p in graph.all_ports(node) {
-                if visited.insert(p) {
-                    // Visit it
-                    if let Some(other_port) = graph.port_link(p) {
-                        visited.insert(other_port.into());
+                if boundary_ports.contains(&p) {
+                    continue;
+                }
+                for (_, other_port) in graph.port_links(p) {
+                    if boundary_ports.contains(&other_port.into()) {
+                        continue;
+                    }
+                    let other_node = graph.port_node(other_port).unwrap();
+                    if !visited.contains(&other_node) {
                         // Possibly a new node!
-                        let other_node = graph.port_node(other_port).unwrap();
                         nodes_to_process.insert(other_node);
                     }
                 }
-- 
2.43.0


From 36712182f6d7b89df70996dda654f48bdd36b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 20/49] fix: wait for all the links of a multiport in TopoSort

---
 src/algorithms/toposort.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index e2849f7..a2366c0 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -217,6 +217,15 @@ where
         }
     }
 
+    /// Returns `true` if all the ports linked to `port` have been visited.
+    ///
+    /// This is always the case for ports reached in a graph without multiports.
+    fn links_visited(&self, port: PortIndex) -> bool {
+        self.graph
+            .port_links(port)
+            .all(|(_, other)| *self.visited_ports.get(other.into()))
+    }
+
     /// Checks if a node becomes ready once it is visited from `from_port`, i.e.
     /// it has been reached from all its linked ports.
     fn becomes_ready(&mut self, node: NodeIndex, from_port: impl Into<PortIndex>) -> bool {
@@ -286,6 +295,10 @@ where
                 .map(|(_, next_port)| next_port.into())
                 .collect();
             for port in linked_ports {
+                if !self.links_visited(port) {
+                    // The port has other links that have not been visited yet.
+                    continue;
+                }
                 let target = self.graph.port_node(port).unwrap();
 
                 if self.becomes_ready(target, port) {
-- 
2.43.0


From 4d8c603c422f617fc6087ebd38b214c12b272dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 21/49] fix: return each TopoSort source once, including nodes
 without ports

---
 src/algorithms/toposort.rs | 43 +++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index a2366c0..a7e0be6 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -1,7 +1,11 @@
 use crate::{Direction, LinkView, NodeIndex, PortIndex, SecondaryMap};
 use bitvec::prelude::BitVec;
 use smallvec::SmallVec;
-use std::{collections::VecDeque, fmt::Debug, iter::FusedIterator};
+use std::{
+    collections::{HashSet, VecDeque},
+    fmt::Debug,
+    iter::FusedIterator,
+};
 
 /// Returns an iterator over a [`LinkView`] in topological order.
 ///
@@ -117,6 +121,10 @@ pub struct TopoSort<'f, G, Map = BitVec> {
     /// A VecDeque is used for the node list to produce a canonical ordering,
     /// as successors of nodes already have a canonical ordering due to ports.
     candidate_nodes: VecDeque<NodeIndex>,
+    /// The source nodes without incoming ports that have been added so far.
+    ///
+    /// Other nodes can be identified as visited by their incoming ports.
+    initial_nodes: HashSet<NodeIndex>,
     direction: Direction,
     /// The number of nodes already returned from the iterator.
     /// This is used to calculate the upper bound for the iterator's `size_hint`.
@@ -144,17 +152,11 @@ where
         graph: G,
         source: impl IntoIterator<Item = NodeIndex>,
         direction: Direction,
-        mut node_filter: Option<Box<dyn FnMut(NodeIndex) -> bool + 'f>>,
+        node_filter: Option<Box<dyn FnMut(NodeIndex) -> bool + 'f>>,
         port_filter: Option<Box<dyn FnMut(NodeIndex, PortIndex) -> bool + 'f>>,
     ) -> Self {
         let mut visited_ports: Map = SecondaryMap::new();
 
-        let candidate_nodes: VecDeque<_> = if let Some(node_filter) = node_filter.as_mut() {
-            source.into_iter().filter(|&n| node_filter(n)).collect()
-        } else {
-            source.into_iter().collect()
-        };
-
         // If the default value of `Map` is not `false`, we must mark all ports as not visited.
         if visited_ports.default_value() {
             for port in graph.ports_iter() {
@@ -162,22 +164,18 @@ where
             }
         }
 
-        // Mark all the candidate ports as visited, so we don't visit them again.
-        for node in candidate_nodes.iter() {
-            for port in graph.ports(*node, direction.reverse()) {
-                visited_ports.set(port, true);
-            }
-        }
-
-        Self {
+        let mut toposort = Self {
             graph,
             visited_ports,
-            candidate_nodes,
+            candidate_nodes: VecDeque::new(),
+            initial_nodes: HashSet::new(),
             direction,
             nodes_seen: 0,
             node_filter,
             port_filter,
-        }
+        };
+        toposort.add_sources(source);
+        toposort
     }
 
     /// Returns whether there are ports that have not been visited yet.
@@ -197,18 +195,15 @@ where
                 continue;
             };
 
+            // Mark all the incoming ports as visited, so we don't visit the node again.
             let mut new_candidate = false;
             for port in self.graph.ports(node, self.direction.reverse()) {
                 new_candidate |= !self.visited_ports.get(port);
                 self.visited_ports.set(port, true);
             }
             if self.graph.num_ports(node, self.direction.reverse()) == 0 {
-                // If the node has no incoming ports, we check if it has been visited by looking at the outgoing ports.
-                new_candidate = !self.candidate_nodes.contains(&node)
-                    && self
-                        .graph
-                        .ports(node, self.direction)
-                        .any(|p| !self.visited_ports.get(p));
+                // A node without incoming ports can only be visited by being a source.
+                new_candidate = self.initial_nodes.insert(node);
             }
 
             if new_candidate {
-- 
2.43.0


From 936ebe943adb2c53a12ce11cdf163de4ef875d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 22/49] fix: check every link of a multiport in the static
 convex checkers

---
 src/algorithms/convex/line_convex_checker.rs | 2 +-
 src/algorithms/convex/topo_convex_checker.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..3d5fb0f 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -636,7 +636,7 @@ impl<G: LinkView> ConvexChecker for LineConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
diff --git a/src/algorithms/convex/topo_convex_checker.rs b/src/algorithms/convex/topo_convex_checker.rs
index 883ebe8..c14774b 100644
--- a/src/algorithms/convex/topo_convex_checker.rs
+++ b/src/algorithms/convex/topo_convex_checker.rs
@@ -129,7 +129,7 @@ impl<G: LinkView> ConvexChecker for TopoConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
-- 
2.43.0


From e679b098243f7683d09550a300e5b4f882c2a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 23/49] fix: report empty subgraphs as convex in
 LineConvexChecker

---
 src/algorithms/convex/line_convex_checker.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 3d5fb0f..9aa9180 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,11 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
-            .values()
-            .map(|LineInterval { min, .. }| min)
-            .max()
-            .unwrap();
+        let Some(max_start_pos) = intervals.values().map(|LineInterval { min, .. }| min).max()
+        else {
+            // An empty subgraph is always convex.
+            return true;
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From 64d0dabc91b7b07db4ef3721434a945e3124d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 24/49] fix: ignore unreachable predecessors when computing
 dominators

---
 src/algorithms/dominators.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..d1123a0 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -137,7 +137,9 @@ where
     ) -> Self {
         // We traverse the graph in post order starting at the `entry` node.
         // We associate each node that we encounter with its index within the traversal.
-        let mut node_to_index = UnmanagedDenseMap::with_capacity(graph.node_capacity());
+        // Nodes that are not reachable from `entry` are not indexed.
+        let mut node_to_index: UnmanagedDenseMap<NodeIndex, Option<usize>> =
+            UnmanagedDenseMap::with_capacity(graph.node_capacity());
         let mut index_to_node = Vec::with_capacity(graph.node_capacity());
 
         for (index, node) in postorder_filtered(
@@ -149,7 +151,7 @@ where
         )
         .enumerate()
         {
-            node_to_index[node] = index;
+            node_to_index[node] = Some(index);
             index_to_node.push(node);
         }
 
@@ -182,7 +184,7 @@ where
                         if !node_filter(pred) || !port_filter(pred, link) {
                             return None;
                         }
-                        let pred_index = node_to_index[pred];
+                        let pred_index = node_to_index[pred]?;
                         if dominators[pred_index] == usize::MAX {
                             // No dominator yet
                             return None;
-- 
2.43.0


From 4897ce8bde2e991ee9d2472a6e2eb25da3942b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 25/49] fix: return an empty dominator tree when the entry node
 is filtered out

---
 src/algorithms/dominators.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index d1123a0..71cf066 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -159,7 +159,14 @@ where
         // We set the entry node (i.e. the last node in the post oder traversal) it to dominate itself.
         let num_nodes = index_to_node.len();
         let mut dominators = vec![usize::MAX; num_nodes];
-        *dominators.last_mut().unwrap() = num_nodes - 1;
+        let Some(entry_dominator) = dominators.last_mut() else {
+            // The entry node was filtered out, so no node is dominated.
+            return Self {
+                root: entry,
+                idom: Map::new(),
+            };
+        };
+        *entry_dominator = num_nodes - 1;
 
         // Iterate until we have reached a fixed point
         let mut changed = true;
-- 
2.43.0


From c5fc1b1b0471298330993158f7e3815839eea52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 26/49] fix: only reorder the affected nodes in DynamicTopoSort

---
 src/algorithms/dynamic.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..b951def 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -151,17 +151,23 @@ impl DynamicTopoSort {
         }
         let lb = to_pos;
         let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        let mut delta_f = self.cone(to, ub, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, lb, graph, Direction::Incoming);
+        // Keep the relative order inside each cone, and redistribute the affected
+        // nodes over the positions they occupied.
+        delta_f.sort_unstable_by_key(|n| self.node_to_pos[n]);
+        delta_b.sort_unstable_by_key(|n| self.node_to_pos[n]);
+        let affected = || delta_b.iter().chain(&delta_f);
+        let mut positions: Vec<usize> = affected().map(|n| self.node_to_pos[n]).collect();
+        positions.sort_unstable();
+        for (&w, new_pos) in affected().zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-    /// Computes the future cone from a starting node, up to position `ub`.
+    /// Computes the cone from a starting node in the given direction, up to
+    /// position `bound` (inclusive).
     fn cone<G: LinkView>(
         &self,
         start: NodeIndex,
@@ -186,8 +192,8 @@ impl DynamicTopoSort {
     ) -> bool {
         let pos = *self.node_to_pos.get(&n).unwrap();
         let out_of_bounds = match dir {
-            Direction::Outgoing => pos >= bound,
-            Direction::Incoming => pos <= bound,
+            Direction::Outgoing => pos > bound,
+            Direction::Incoming => pos < bound,
         };
         if visited.contains(&n) || out_of_bounds {
             return false;
-- 
2.43.0


From 99fd794451829f72088769035d8710102e99f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 27/49] fix: check for cycles along the edge direction in
 DynamicTopoConvexChecker

---
 src/algorithms/dynamic.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index b951def..7dc9969 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -403,9 +403,20 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
             .graph
             .port_node(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
-        if self
-            .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+        // The ports may be given in any order.
+        let dirs = (
+            self.graph.port_direction(from),
+            self.graph.port_direction(to),
+        );
+        let (from_node, to_node) = match dirs {
+            (Some(Direction::Incoming), Some(Direction::Outgoing)) => (to_node, from_node),
+            _ => (from_node, to_node),
+        };
+        // Ports with the same direction are rejected by the graph.
+        if dirs.0 != dirs.1
+            && self
+                .topo_sort
+                .would_create_cycle(from_node, to_node, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
-- 
2.43.0


From 37c300fff2ae942b12d79662c78016cc183fc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 28/49] fix: only follow paths that leave the subgraph in
 DynamicTopoConvexChecker::is_convex

---
 src/algorithms/dynamic.rs | 140 ++++++++------------------------------
 1 file changed, 28 insertions(+), 112 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 7dc9969..a40a29a 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -4,7 +4,6 @@ use crate::{
     Direction, LinkError, LinkMut, LinkView, NodeIndex, PortIndex, PortMut, PortOffset, PortView,
 };
 use delegate::delegate;
-use std::cmp::{max, min};
 use std::collections::{HashMap, HashSet, VecDeque};
 use thiserror::Error;
 
@@ -222,73 +221,32 @@ impl DynamicTopoSort {
         &self.order
     }
 
+    /// Checks if there is a path between two nodes in `nodes` that leaves the subgraph.
+    ///
+    /// All the nodes must be in the topological order, at position `max_pos` or earlier.
     fn has_path_outside_subgraph<G: LinkView>(
         &self,
-        start: NodeIndex,
-        end: NodeIndex,
-        min_pos: usize,
         max_pos: usize,
         nodes: &HashSet<NodeIndex>,
         graph: &G,
     ) -> bool {
+        // The nodes outside the subgraph that can be reached from it.
+        let mut queue: VecDeque<NodeIndex> = nodes
+            .iter()
+            .flat_map(|&node| graph.output_neighbours(node))
+            .filter(|n| !nodes.contains(n))
+            .collect();
         let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back(start);
         while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
-                return true;
-            }
-            if node == end {
-                continue;
-            }
-            if visited.insert(node) {
-                for n in graph.output_neighbours(node) {
-                    let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                    if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
-                    }
-                }
-            }
-        }
-        false
-    }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
             let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
+            if pos > max_pos || !visited.insert(node) {
                 continue;
             }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
+            for neighbour in graph.output_neighbours(node) {
+                if nodes.contains(&neighbour) {
+                    return true;
                 }
+                queue.push_back(neighbour);
             }
         }
         false
@@ -470,63 +428,21 @@ where
         if nodes.len() < 2 {
             return true;
         }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
-        let mut min_pos = usize::MAX;
-        let mut max_pos = 0;
-
-        for &node in &nodes {
-            if let Some(&pos) = self.topo_sort.node_to_pos.get(&node) {
-                min_pos = min(min_pos, pos);
-                max_pos = max(max_pos, pos);
-            } else {
-                return false;
-            }
-        }
-
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
-            }
-            return true;
-        }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
-                    continue;
-                }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
-                    return false;
-                }
-            }
+        let pre_outputs: HashSet<PortIndex> = outputs
+            .into_iter()
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
+            .collect();
+        if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
+            return false;
         }
-        true
+        let max_pos = nodes
+            .iter()
+            .map(|node| self.topo_sort.node_to_pos[node])
+            .max()
+            .unwrap_or_default();
+        !self
+            .topo_sort
+            .has_path_outside_subgraph(max_pos, &nodes, &self.graph)
     }
 }
 
-- 
2.43.0


From 76aaf87bfa7648475194bd8a895fd94cec0bb687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 29/49] fix: keep the order of DynamicTopoConvexChecker in sync
 with node changes

---
 src/algorithms/dynamic.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index a40a29a..87854c2 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -101,6 +101,20 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Swaps the indices of two nodes, keeping their position in the topological order.
+    ///
+    /// If only one of the nodes is in the order, its index is replaced by the other one.
+    pub fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        let pos_a = self.node_to_pos.remove(&a);
+        let pos_b = self.node_to_pos.remove(&b);
+        for (node, pos) in [(b, pos_a), (a, pos_b)] {
+            if let Some(pos) = pos {
+                self.order[pos] = node;
+                self.node_to_pos.insert(node, pos);
+            }
+        }
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -330,16 +344,32 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // Removing a non-existent node is a no-op.
+        let _ = self.topo_sort.remove_node(node);
+    }
+
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.swap_nodes(a, b);
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let topo_sort = &mut self.topo_sort;
+        self.graph.compact_nodes(|old, new| {
+            topo_sort.swap_nodes(old, new);
+            rekey(old, new);
+        });
     }
 
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From ac877c17c43b618d1323f082a00fb1c414cb0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 30/49] fix: return true on the first visit to a node in
 petgraph visit maps

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..39ced94 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -311,7 +311,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From 85865b9cbbd87219f31d43637e305f0bcca98eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 31/49] fix: bound the node indices of sparse graphs in the
 petgraph traits

---
 src/view/petgraph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 39ced94..0d618ce 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,11 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                // Node indices may not be contiguous.
+                self.nodes_iter()
+                    .map(|n| n.index() + 1)
+                    .max()
+                    .unwrap_or_default()
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
@@ -190,7 +194,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From be3229757417f72f0e33c484a0f39a675e0f3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 32/49] fix: list each edge once in petgraph edge references

---
 src/view/petgraph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 0d618ce..49e36b7 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -384,7 +384,12 @@ where
     pub fn new(graph: &'g G) -> Self {
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            // Each link is listed once, from its source port.
+            ports: Box::new(
+                graph
+                    .ports_iter()
+                    .filter(|&port| graph.port_direction(port) == Some(crate::Direction::Outgoing)),
+            ),
             links: None,
             count: graph.link_count(),
         }
@@ -400,6 +405,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count -= 1;
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From 761cb6c7e9bfd64aaf552d95bd2dba12e199427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 33/49] fix: orient petgraph node edges and only list the
 outgoing ones in IntoEdges

---
 src/view/petgraph.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 49e36b7..6e16229 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -453,19 +453,22 @@ impl<'g, G> NodeEdgeRefs<'g, G>
 where
     G: LinkView,
 {
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the outgoing edges of a node.
     pub fn new(graph: &'g G, node: NodeIndex) -> Self {
-        Self {
-            graph,
-            links: Box::new(graph.all_links(node)),
-        }
+        Self::new_directed(graph, node, crate::Direction::Outgoing)
     }
 
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the edges of a node in a given direction.
+    ///
+    /// The edges are always oriented from their source to their target.
     pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
+        let links = graph.links(node, dir);
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            links: match dir {
+                crate::Direction::Incoming => Box::new(links.map(|(to, from)| (from, to))),
+                crate::Direction::Outgoing => Box::new(links),
+            },
         }
     }
 }
-- 
2.43.0


From cf4e5c05a436527ee8f39f0cf95ef1f5aa879753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:19 +0000
Subject: [PATCH 34/49] Add cfg-guarded RwLock wrapper as a simulation hook

---
 src/lib.rs         |   4 ++
 src/sim.rs         | 141 +++++++++++++++++++++++++++++++++++++++++++++
 src/view/region.rs |   4 ++
 3 files changed, 149 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 15f551e..fa5ecf9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// `portgraph_sim` is only set by simulation harnesses.
+#![allow(unexpected_cfgs)]
 #![warn(missing_docs)]
 //! `portgraph` is a data structure library for graphs with node ports.
 //!
@@ -68,6 +70,8 @@ pub mod multiportgraph;
 pub mod portgraph;
 pub mod render;
 pub mod secondary;
+#[cfg(portgraph_sim)]
+pub mod sim;
 pub mod unmanaged;
 pub mod view;
 pub mod weights;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..8541a26
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,141 @@
+//! Simulation hooks, only compiled with `--cfg portgraph_sim`.
+//!
+//! Provides a drop-in replacement for [`std::sync::RwLock`] that reports every
+//! lock operation to an installable hook, so that a deterministic scheduler can
+//! decide when each thread acquires and releases the lock.
+
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// A lock operation about to happen, or that just happened, in the current thread.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum LockEvent {
+    /// The thread is about to try to acquire a lock for reading.
+    Read,
+    /// The thread is about to try to acquire a lock for writing.
+    Write,
+    /// The thread could not acquire the lock, and must wait for another one.
+    Blocked,
+    /// The thread has released a lock.
+    Released,
+}
+
+static HOOK: OnceLock<fn(LockEvent)> = OnceLock::new();
+
+/// Installs the hook called on every lock event. Can only be done once.
+pub fn set_lock_hook(hook: fn(LockEvent)) {
+    let _ = HOOK.set(hook);
+}
+
+fn event(event: LockEvent) {
+    match HOOK.get() {
+        Some(hook) => hook(event),
+        None if event == LockEvent::Blocked => std::thread::yield_now(),
+        None => {}
+    }
+}
+
+/// Replacement for [`std::sync::RwLock`] controlled by the simulator.
+#[derive(Debug, Default)]
+pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
+
+/// A lock guard that reports its release.
+#[derive(Debug)]
+pub struct Guard<G>(Option<G>);
+
+impl<G> Drop for Guard<G> {
+    fn drop(&mut self) {
+        drop(self.0.take());
+        event(LockEvent::Released);
+    }
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+
+    fn deref(&self) -> &G::Target {
+        self.0.as_ref().expect("guard is active")
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut G::Target {
+        self.0.as_mut().expect("guard is active")
+    }
+}
+
+/// Guard for shared access.
+pub type RwLockReadGuard<'a, T> = Guard<std::sync::RwLockReadGuard<'a, T>>;
+/// Guard for exclusive access.
+pub type RwLockWriteGuard<'a, T> = Guard<std::sync::RwLockWriteGuard<'a, T>>;
+
+fn wrap<G>(res: TryLockResult<G>) -> TryLockResult<Guard<G>> {
+    match res {
+        Ok(guard) => Ok(Guard(Some(guard))),
+        Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(Guard(
+            Some(err.into_inner()),
+        )))),
+        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+    }
+}
+
+fn wait<G>(mut attempt: impl FnMut() -> TryLockResult<G>) -> LockResult<G> {
+    loop {
+        match attempt() {
+            Ok(guard) => return Ok(guard),
+            Err(TryLockError::Poisoned(err)) => return Err(err),
+            Err(TryLockError::WouldBlock) => event(LockEvent::Blocked),
+        }
+    }
+}
+
+impl<T> RwLock<T> {
+    /// See [`std::sync::RwLock::new`].
+    pub const fn new(value: T) -> Self {
+        Self(std::sync::RwLock::new(value))
+    }
+
+    /// See [`std::sync::RwLock::into_inner`].
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T: ?Sized> RwLock<T> {
+    /// See [`std::sync::RwLock::try_read`].
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        event(LockEvent::Read);
+        wrap(self.0.try_read())
+    }
+
+    /// See [`std::sync::RwLock::try_write`].
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        event(LockEvent::Write);
+        wrap(self.0.try_write())
+    }
+
+    /// See [`std::sync::RwLock::read`].
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        wait(|| self.try_read())
+    }
+
+    /// See [`std::sync::RwLock::write`].
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        wait(|| self.try_write())
+    }
+
+    /// See [`std::sync::RwLock::get_mut`].
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    /// See [`std::sync::RwLock::is_poisoned`].
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    /// See [`std::sync::RwLock::clear_poison`].
+    pub fn clear_poison(&self) {
+        self.0.clear_poison()
+    }
+}
diff --git a/src/view/region.rs b/src/view/region.rs
index 1ecb50f..d254782 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -2,9 +2,13 @@
 
 use delegate::delegate;
 use itertools::Either;
+#[cfg(not(portgraph_sim))]
 use std::sync::RwLock;
 use std::{collections::HashMap, iter};
 
+#[cfg(portgraph_sim)]
+use crate::sim::RwLock;
+
 use super::{LinkView, MultiView, PortView};
 use crate::{Direction, Hierarchy, NodeIndex, PortIndex, PortOffset};
 
-- 
2.43.0


From b342c5c4e8f5528b9a1ff4b56f997a51cc351b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:17 +0000
Subject: [PATCH 35/49] fix: ignore copy nodes hidden in a MultiPortGraph in
 set_num_ports

---
 src/multiportgraph.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 5e68a8e..0db5bf6 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -226,6 +226,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
+        if self.is_copy_node(node) {
+            // Copy nodes are not part of the graph.
+            return;
+        }
         // Disconnect the ports that are going to be removed (and drop their copy
         // nodes) before resizing the node, while the port indices are still valid.
         let removed_ports: Vec<PortIndex> = self
@@ -539,7 +543,13 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
                 outgoing - 1
             }
         };
-        self.set_num_ports(node, incoming, outgoing, |_, _| {});
+        let multiport = &mut self.multiport;
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |port, op| {
+                if let PortOperation::Moved { new_index } = op {
+                    multiport.swap(port, new_index);
+                }
+            });
         self.graph
             .port_index(node, PortOffset::new(direction, new_offset))
             .unwrap()
-- 
2.43.0


From 3b960ed625055e1db23f5bc3d96be4f3605702f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:37 +0000
Subject: [PATCH 36/49] fix: reserve the requested capacity in BitVec and
 HashSet secondary maps

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..8b6f061 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(BitVec::len(self)));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(HashSet::len(self)));
     }
 
     #[inline]
-- 
2.43.0


From ba40a314cdcfb4c1701c05fe1038ba14c076fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 37/49] fix: copy subgraphs in an order that does not depend on
 hash seeds

---
 src/view/subgraph.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/view/subgraph.rs b/src/view/subgraph.rs
index 44c099a..c3c75a2 100644
--- a/src/view/subgraph.rs
+++ b/src/view/subgraph.rs
@@ -360,7 +360,10 @@ impl<G: LinkMut> Subgraph<G> {
             .iter()
             .map(|node| (*node, g.add_node(g.num_inputs(*node), g.num_outputs(*node))))
             .collect::<HashMap<_, _>>();
-        for (node, new_node) in node_map.iter() {
+        // Traverse the nodes in order, rather than in the arbitrary order of the
+        // map, so that the result does not depend on the hash seeds.
+        for node in self.nodes.iter() {
+            let new_node = &node_map[node];
             for (node_p, other_p) in self.graph.all_links(*node).collect::<Vec<_>>() {
                 let new_node_p = self
                     .graph
@@ -383,8 +386,8 @@ impl<G: LinkMut> Subgraph<G> {
                         match self.graph.link_ports(new_node_p, other_p.into()) {
                             Err(LinkError::AlreadyLinked { port }) => {
                                 // Must undo insertion
-                                for n in node_map.values() {
-                                    self.graph.remove_node(*n);
+                                for n in self.nodes.iter() {
+                                    self.graph.remove_node(node_map[n]);
                                 }
                                 return Err(CopySubgraphError::CantCopyBoundary {
                                     external: port,
-- 
2.43.0


From cd4683ea9f16763664b4a0184d23d3c83dfcaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 38/49] fix: list boundary ports once when subgraph nodes are
 repeated

---
 src/view/subgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/subgraph.rs b/src/view/subgraph.rs
index c3c75a2..0714a13 100644
--- a/src/view/subgraph.rs
+++ b/src/view/subgraph.rs
@@ -93,7 +93,7 @@ impl<G: LinkView> Subgraph<G> {
     ///
     /// See [`Subgraph::new_subgraph`] for a method that takes an explicit port boundary.
     pub fn with_nodes(graph: G, nodes: impl IntoIterator<Item = NodeIndex>) -> Self {
-        let ordered_nodes = nodes.into_iter().collect_vec();
+        let ordered_nodes = nodes.into_iter().unique().collect_vec();
         let nodes = ordered_nodes.iter().copied().collect();
         let boundary = collect_boundary_ports(&graph, ordered_nodes, &nodes);
         Self {
-- 
2.43.0


From e7956d94e90b6d5f27118885d6d652e42b62af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:11 +0000
Subject: [PATCH 39/49] fix: do not enter nodes through filtered ports in
 TopoSort

---
 src/algorithms/toposort.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index a7e0be6..9c0faff 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -296,6 +296,10 @@ where
                 }
                 let target = self.graph.port_node(port).unwrap();
 
+                if self.ignore_port(target, port) {
+                    continue;
+                }
+
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-- 
2.43.0


From ff3845c932f38627dbe1366f02f69ec1ccca9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 40/49] Let waiting writers block readers in the simulation
 hook

---
 src/sim.rs | 80 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 8541a26..ee7438a 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -5,6 +5,7 @@
 //! decide when each thread acquires and releases the lock.
 
 use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
 
 /// A lock operation about to happen, or that just happened, in the current thread.
@@ -36,8 +37,29 @@ fn event(event: LockEvent) {
 }
 
 /// Replacement for [`std::sync::RwLock`] controlled by the simulator.
+///
+/// As with the standard lock, readers have to wait while a writer is waiting.
 #[derive(Debug, Default)]
-pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
+pub struct RwLock<T: ?Sized> {
+    waiting: AtomicUsize,
+    lock: std::sync::RwLock<T>,
+}
+
+/// A writer waiting for a lock.
+struct Waiting<'a>(&'a AtomicUsize);
+
+impl<'a> Waiting<'a> {
+    fn new(count: &'a AtomicUsize) -> Self {
+        count.fetch_add(1, Ordering::SeqCst);
+        Self(count)
+    }
+}
+
+impl Drop for Waiting<'_> {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, Ordering::SeqCst);
+    }
+}
 
 /// A lock guard that reports its release.
 #[derive(Debug)]
@@ -79,25 +101,18 @@ fn wrap<G>(res: TryLockResult<G>) -> TryLockResult<Guard<G>> {
     }
 }
 
-fn wait<G>(mut attempt: impl FnMut() -> TryLockResult<G>) -> LockResult<G> {
-    loop {
-        match attempt() {
-            Ok(guard) => return Ok(guard),
-            Err(TryLockError::Poisoned(err)) => return Err(err),
-            Err(TryLockError::WouldBlock) => event(LockEvent::Blocked),
-        }
-    }
-}
-
 impl<T> RwLock<T> {
     /// See [`std::sync::RwLock::new`].
     pub const fn new(value: T) -> Self {
-        Self(std::sync::RwLock::new(value))
+        Self {
+            waiting: AtomicUsize::new(0),
+            lock: std::sync::RwLock::new(value),
+        }
     }
 
     /// See [`std::sync::RwLock::into_inner`].
     pub fn into_inner(self) -> LockResult<T> {
-        self.0.into_inner()
+        self.lock.into_inner()
     }
 }
 
@@ -105,37 +120,62 @@ impl<T: ?Sized> RwLock<T> {
     /// See [`std::sync::RwLock::try_read`].
     pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
         event(LockEvent::Read);
-        wrap(self.0.try_read())
+        if self.waiting.load(Ordering::SeqCst) > 0 {
+            return Err(TryLockError::WouldBlock);
+        }
+        wrap(self.lock.try_read())
     }
 
     /// See [`std::sync::RwLock::try_write`].
     pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
         event(LockEvent::Write);
-        wrap(self.0.try_write())
+        wrap(self.lock.try_write())
     }
 
     /// See [`std::sync::RwLock::read`].
     pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
-        wait(|| self.try_read())
+        loop {
+            match self.try_read() {
+                Ok(guard) => return Ok(guard),
+                Err(TryLockError::Poisoned(err)) => return Err(err),
+                Err(TryLockError::WouldBlock) => event(LockEvent::Blocked),
+            }
+        }
     }
 
     /// See [`std::sync::RwLock::write`].
     pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
-        wait(|| self.try_write())
+        let mut waiting = None;
+        loop {
+            match self.try_write() {
+                Ok(guard) => return Ok(guard),
+                Err(TryLockError::Poisoned(err)) => return Err(err),
+                Err(TryLockError::WouldBlock) => {
+                    waiting.get_or_insert_with(|| Waiting::new(&self.waiting));
+                    event(LockEvent::Blocked);
+                }
+            }
+        }
     }
 
     /// See [`std::sync::RwLock::get_mut`].
     pub fn get_mut(&mut self) -> LockResult<&mut T> {
-        self.0.get_mut()
+        self.lock.get_mut()
     }
 
     /// See [`std::sync::RwLock::is_poisoned`].
     pub fn is_poisoned(&self) -> bool {
-        self.0.is_poisoned()
+        self.lock.is_poisoned()
     }
 
     /// See [`std::sync::RwLock::clear_poison`].
     pub fn clear_poison(&self) {
-        self.0.clear_poison()
+        self.lock.clear_poison()
+    }
+}
+
+impl<T> From<T> for RwLock<T> {
+    fn from(value: T) -> Self {
+        Self::new(value)
     }
 }
-- 
2.43.0


From a089c537fdaf6928bf17d87a3eeef1e464f5da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:35 +0000
Subject: [PATCH 41/49] Report acquired locks to the simulation hook

---
 src/sim.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index ee7438a..9bb6d1e 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -15,6 +15,8 @@ pub enum LockEvent {
     Read,
     /// The thread is about to try to acquire a lock for writing.
     Write,
+    /// The thread has acquired a lock, and holds it.
+    Acquired,
     /// The thread could not acquire the lock, and must wait for another one.
     Blocked,
     /// The thread has released a lock.
@@ -93,7 +95,11 @@ pub type RwLockWriteGuard<'a, T> = Guard<std::sync::RwLockWriteGuard<'a, T>>;
 
 fn wrap<G>(res: TryLockResult<G>) -> TryLockResult<Guard<G>> {
     match res {
-        Ok(guard) => Ok(Guard(Some(guard))),
+        Ok(guard) => {
+            let guard = Guard(Some(guard));
+            event(LockEvent::Acquired);
+            Ok(guard)
+        }
         Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(Guard(
             Some(err.into_inner()),
         )))),
-- 
2.43.0


From 22309b8f06e76c173937c33e3e666280b87d146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 42/49] fix: Find lowest common ancestors in views that hide
 roots

Building LCA from a view started its traversals from the roots of the
hierarchy that are part of the view. Nodes whose root was hidden were never
visited, and every query about them returned nonsense.
---
 src/algorithms/lca.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/lca.rs b/src/algorithms/lca.rs
index 2193624..42f479f 100644
--- a/src/algorithms/lca.rs
+++ b/src/algorithms/lca.rs
@@ -45,13 +45,19 @@ impl LCA {
         // `first_visit`, and `last_visit` arrays.
         let mut timestamp = 0;
         let mut stack = vec![];
-        for root in graph.nodes_iter() {
+        for node in graph.nodes_iter() {
             // We start with an empty stack
             debug_assert!(stack.is_empty());
 
-            if !hierarchy.is_root(root) {
+            // Skip the trees that have already been traversed.
+            if lca.last_visit[node] != 0 {
                 continue;
             }
+            // The root may not be part of the graph, if it is a view.
+            let mut root = node;
+            while let Some(parent) = hierarchy.parent(root) {
+                root = parent;
+            }
             stack.push(DFSState::Visit {
                 node: root,
                 parent: None,
-- 
2.43.0


From 0fc919b76ea8b96f07c8c475f22209d30b449cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 43/49] fix: Render views of hierarchies and nested links in
 mermaid

Children hidden by a view were rendered, nodes could be rendered twice, and
a link between a node and its descendant (or itself) was emitted inside of
that node's subgraph. The order of the links of different regions depended
on the hash seed.
---
 src/render/mermaid.rs | 49 ++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 3c28503..9c1e95c 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -1,11 +1,11 @@
 //! Functions to encode a `PortGraph` in mermaid format.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Display;
+use std::iter;
 
 use itertools::Itertools;
 
-use crate::algorithms::{lca, LCA};
 use crate::{Hierarchy, LinkView, NodeIndex, Weights};
 
 use super::{EdgeStyle, NodeStyle, PresentationStyle};
@@ -111,16 +111,13 @@ where
             exploration_stack.push(ExplorationStep::ExploreNode { node: root });
         }
 
-        // Delay emitting edges until we are in a region that is the parent of both the source and target nodes.
+        // Delay emitting edges until we are in a region that contains both the source and target nodes.
         #[allow(clippy::type_complexity)]
         let mut edges: HashMap<
             Option<NodeIndex>,
             Vec<(NodeIndex, G::LinkEndpoint, NodeIndex, G::LinkEndpoint)>,
         > = HashMap::new();
 
-        // An efficient structure for retrieving the lowest common ancestor of two nodes.
-        let lca: Option<LCA> = self.forest.map(|f| lca(self.graph, f));
-
         while let Some(instr) = exploration_stack.pop() {
             match instr {
                 ExplorationStep::ExploreNode { node } => {
@@ -142,9 +139,8 @@ where
                     for (src, tgt) in self.graph.output_links(node) {
                         let src_node = self.graph.port_node(src).unwrap();
                         let tgt_node = self.graph.port_node(tgt).unwrap();
-                        let lca = lca.as_ref().and_then(|l| l.lca(src_node, tgt_node));
                         edges
-                            .entry(lca)
+                            .entry(self.common_region(src_node, tgt_node))
                             .or_insert_with(Vec::new)
                             .push((src_node, src, tgt_node, tgt));
                     }
@@ -169,25 +165,40 @@ where
         }
     }
 
-    /// Helper function to check if a node is a leaf in the hierarchy.
+    /// Returns the node whose subgraph directly contains `node`, if any.
+    ///
+    /// In filtered graphs, the parent of a node may not be part of the graph.
+    fn region(&self, node: NodeIndex) -> Option<NodeIndex> {
+        let parent = self.forest?.parent(node)?;
+        self.graph.contains_node(parent).then_some(parent)
+    }
+
+    /// Returns the innermost subgraph that contains both nodes, if any.
+    fn common_region(&self, a: NodeIndex, b: NodeIndex) -> Option<NodeIndex> {
+        let regions = |n| iter::successors(self.region(n), |&r| self.region(r)).collect_vec();
+        let (regions_a, regions_b) = (regions(a), regions(b));
+        iter::zip(regions_a.iter().rev(), regions_b.iter().rev())
+            .take_while(|(ra, rb)| ra == rb)
+            .last()
+            .map(|(&r, _)| r)
+    }
+
+    /// Helper function to check if a node is a root in the hierarchy.
     fn is_root(&self, node: NodeIndex) -> bool {
-        let Some(f) = &self.forest else {
-            return true;
-        };
-        f.is_root(node)
-            // Special case for filtered graphs.
-            || f.parent(node)
-                .map_or(true, |p| !self.graph.contains_node(p))
+        self.region(node).is_none()
     }
 
     /// Helper function to check if a node is a leaf in the hierarchy.
     fn is_leaf(&self, node: NodeIndex) -> bool {
-        self.forest.map_or(true, |f| !f.has_children(node))
+        self.node_children(node).next().is_none()
     }
 
-    /// Returns the children of a node in the hierarchy.
+    /// Returns the children of a node in the hierarchy that are part of the graph.
     fn node_children(&self, node: NodeIndex) -> impl DoubleEndedIterator<Item = NodeIndex> + '_ {
-        self.forest.iter().flat_map(move |f| f.children(node))
+        self.forest
+            .iter()
+            .flat_map(move |f| f.children(node))
+            .filter(|&n| self.graph.contains_node(n))
     }
 }
 
-- 
2.43.0


From 8a22424f1299b483d69531b7db1893f62da876af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 44/49] fix: Do not render edges of hidden nodes

As documented for NodeStyle::Hidden.
---
 src/render/dot.rs     | 22 +++++++++++++++-------
 src/render/mermaid.rs | 20 +++++++++++++++++---
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/render/dot.rs b/src/render/dot.rs
index d5db7d8..c4758eb 100644
--- a/src/render/dot.rs
+++ b/src/render/dot.rs
@@ -1,5 +1,6 @@
 //! Functions to encode a `PortGraph` in dot format.
 
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -112,19 +113,22 @@ where
 
     /// Append the node and edge data in dot format to a string
     fn node_and_edge_strings(&mut self, dot: &mut String) {
+        let mut visible = Vec::new();
+        let mut hidden = HashSet::new();
         for node in self.graph.nodes_iter() {
-            // Format the node as a table
-            let node_style = self.node_style(node);
-            let (node_label, attrs) = match node_style {
-                NodeStyle::Boxed { label, attrs } => (label, attrs),
+            match self.node_style(node) {
+                NodeStyle::Boxed { label, attrs } => visible.push((node, label, attrs)),
                 #[allow(deprecated)]
-                NodeStyle::Box(label) => (label, PresentationStyle::new()),
+                NodeStyle::Box(label) => visible.push((node, label, PresentationStyle::new())),
                 NodeStyle::Hidden => {
                     // Ignore this node
-                    continue;
+                    hidden.insert(node);
                 }
-            };
+            }
+        }
 
+        for (node, node_label, attrs) in visible {
+            // Format the node as a table
             // Get the ports to render, ignoring Hidden ones.
             let ins = self.get_port_strings(node, Direction::Incoming);
             let outs = self.get_port_strings(node, Direction::Outgoing);
@@ -156,6 +160,10 @@ where
             self.graph
                 .outputs(node)
                 .flat_map(|port| self.graph.port_links(port))
+                .filter(|&(_, to)| {
+                    let to_node = self.graph.port_node(to).expect("missing node");
+                    !hidden.contains(&to_node)
+                })
                 .map(|(from, to)| self.get_edge_dot(node, from, to))
                 .for_each(|edge| {
                     dot.push_str(&edge);
diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 9c1e95c..bf74a50 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -279,6 +279,8 @@ struct MermaidBuilder<'g, G: LinkView> {
     output: String,
     /// The current indentation level.
     indent: usize,
+    /// The nodes that are hidden. Edges connected to them are not added.
+    hidden: HashSet<NodeIndex>,
     /// The styling function for nodes.
     node_style: Option<Box<dyn FnMut(NodeIndex) -> NodeStyle + 'g>>,
     /// The styling function for edges.
@@ -296,6 +298,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         Self {
             output: "graph LR\n".to_string(),
             indent: 1,
+            hidden: HashSet::new(),
             node_style,
             edge_style,
         }
@@ -338,7 +341,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match style {
-            NodeStyle::Hidden => self.push_strings(&[id.as_ref(), ":::hidden"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&[id.as_ref(), ":::hidden"])
+            }
             #[allow(deprecated)]
             NodeStyle::Box(lbl) => {
                 self.push_strings(&[id.as_ref(), "[", &encode_label(&id, &lbl), "]"]);
@@ -369,7 +375,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match &style {
-            NodeStyle::Hidden => self.push_strings(&["subgraph ", id.as_ref(), " [ ]"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&["subgraph ", id.as_ref(), " [ ]"])
+            }
             NodeStyle::Boxed { label, .. } => self.push_strings(&[
                 "subgraph ",
                 id.as_ref(),
@@ -401,7 +410,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         self.push_line("end");
     }
 
-    /// Adds an edge to the mermaid definition.
+    /// Adds an edge to the mermaid definition, unless one of its nodes is hidden.
+    ///
+    /// Both nodes must have been added before.
     pub fn add_link(
         &mut self,
         src_node: NodeIndex,
@@ -409,6 +420,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         tgt_node: NodeIndex,
         tgt: G::LinkEndpoint,
     ) {
+        if self.hidden.contains(&src_node) || self.hidden.contains(&tgt_node) {
+            return;
+        }
         let style = self
             .edge_style
             .as_mut()
-- 
2.43.0


From fb7422819a0315280789b0cd6ae1da9066a4b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 45/49] fix: Refuse port counts that port offsets cannot
 represent

---
 src/portgraph.rs | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 75d4308..07a82ee 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -451,14 +451,7 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
 impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn add_node(&mut self, incoming: usize, outgoing: usize) -> NodeIndex {
-        assert!(
-            incoming <= PortOffset::<PO>::max_offset(),
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= PortOffset::<PO>::max_offset(),
-            "Outgoing port count exceeds maximum."
-        );
+        assert_port_counts::<PO>(incoming, outgoing);
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -516,20 +509,8 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
-            "Outgoing port count exceeds maximum."
-        );
-
+        assert_port_counts::<PO>(incoming, outgoing);
         let new_total = incoming + outgoing;
-        assert!(
-            new_total <= NodeMeta::MAX_CAPACITY,
-            "Total port count exceeds maximum."
-        );
 
         let Some(node_meta) = self.node_meta_valid(node) else {
             return;
@@ -833,6 +814,30 @@ struct NodeMeta {
     capacity: u16,
 }
 
+/// Asserts that a node can have the given numbers of ports.
+///
+/// The counts are limited by the port offsets that can be represented, and by
+/// the metadata stored for each node.
+///
+/// # Panics
+///
+/// Panics if any of the port counts is too large.
+pub(crate) fn assert_port_counts<PO: Unsigned>(incoming: usize, outgoing: usize) {
+    let max_offset = PortOffset::<PO>::max_offset();
+    assert!(
+        incoming <= max_offset.min(NodeMeta::MAX_INCOMING),
+        "Incoming port count exceeds maximum."
+    );
+    assert!(
+        outgoing <= max_offset.min(NodeMeta::MAX_OUTGOING),
+        "Outgoing port count exceeds maximum."
+    );
+    assert!(
+        incoming + outgoing <= NodeMeta::MAX_CAPACITY,
+        "Total port count exceeds maximum."
+    );
+}
+
 impl NodeMeta {
     /// The maximum number of incoming ports for a node.
     /// This is restricted by the `NonZeroU16` representation.
-- 
2.43.0


From 8231b8e1adcffaec2f777babf85bf59fac57aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 46/49] fix: Check the port limits before unlinking multiports

---
 src/multiportgraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 0db5bf6..cf211e4 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -6,7 +6,7 @@ pub use self::iter::{
     Neighbours, NodeConnections, NodeLinks, NodeSubports, Nodes, PortLinks, Ports,
 };
 use crate::index::Unsigned;
-use crate::portgraph::PortOperation;
+use crate::portgraph::{assert_port_counts, PortOperation};
 use crate::view::{LinkMut, MultiMut, MultiView, PortMut};
 use crate::{
     Direction, LinkError, LinkView, NodeIndex, PortGraph, PortIndex, PortOffset, PortView,
@@ -230,6 +230,8 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
             // Copy nodes are not part of the graph.
             return;
         }
+        // Check the limits before disconnecting any port.
+        assert_port_counts::<PO>(incoming, outgoing);
         // Disconnect the ports that are going to be removed (and drop their copy
         // nodes) before resizing the node, while the port indices are still valid.
         let removed_ports: Vec<PortIndex> = self
-- 
2.43.0


From 021529076e6a99c76c9ae7e932b119478ac7764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:24 +0000
Subject: [PATCH 47/49] fix: Generate the same random graph for the same
 proptest seed

---
 src/proptest.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/proptest.rs b/src/proptest.rs
index 58c5971..3bc7130 100644
--- a/src/proptest.rs
+++ b/src/proptest.rs
@@ -2,11 +2,12 @@
 //!
 //! Currently, this module exposes a single function [`gen_portgraph`], which
 //! returns strategies that generate random portgraphs.
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
     Direction, LinkMut, MultiPortGraph, NodeIndex, PortGraph, PortMut, PortOffset, PortView,
 };
+use itertools::Itertools;
 use proptest::prelude::*;
 
 #[derive(Debug, Clone, Copy)]
@@ -38,12 +39,15 @@ prop_compose! {
 prop_compose! {
     /// A random set of distinct edges for a portgraph.
     fn gen_unique_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        out_ports in prop::collection::hash_set((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
-        in_ports in prop::collection::hash_set((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
+        out_ports in prop::collection::vec((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
+        in_ports in prop::collection::vec((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
     ) -> Vec<Edge> {
         // Unlike the non-unique case, in this case we do not "control" the number of
         // edges directly. Might make shrinking slightly more difficult.
-        out_ports.into_iter().zip(in_ports).map(|((src_v, src_p), (target_v, target_p))| {
+        //
+        // The order of the ports must not depend on hash keys, or the same seed
+        // would give different graphs.
+        out_ports.into_iter().unique().zip(in_ports.into_iter().unique()).map(|((src_v, src_p), (target_v, target_p))| {
             Edge {
                 src_v: NodeIndex::new(src_v),
                 target_v: NodeIndex::new(target_v),
@@ -130,7 +134,8 @@ fn graph_from_edges<G: PortMut<PortOffsetBase = u16> + LinkMut + Default>(edges:
         add_port(target_v, target_p);
     }
     let mut g = G::default();
-    let vertices: HashSet<_> = edges
+    // Use an ordered set, so that the same edges always give the same graph.
+    let vertices: BTreeSet<_> = edges
         .iter()
         .flat_map(|e| vec![e.src_v, e.target_v])
         .collect();
-- 
2.43.0


From 47afd2855a8ce7c4b9ef1d5e5257e8d0b045188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:24 +0000
Subject: [PATCH 48/49] fix: Generate random graphs with a single node or
 without ports

---
 src/proptest.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/proptest.rs b/src/proptest.rs
index 3bc7130..395400f 100644
--- a/src/proptest.rs
+++ b/src/proptest.rs
@@ -17,13 +17,23 @@ struct Edge {
     src_p: PortOffset,
     target_p: PortOffset,
 }
+
+/// The maximum number of edges, which is zero if there can be no ports.
+fn limit_n_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize) -> usize {
+    if max_n_nodes == 0 || max_n_ports == 0 {
+        0
+    } else {
+        max_n_edges
+    }
+}
+
 prop_compose! {
     /// A random set of edges for a portgraph.
     fn gen_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        n_edges in 0..=max_n_edges
+        n_edges in 0..=limit_n_edges(max_n_nodes, max_n_ports, max_n_edges)
     )(
-        out_ports in vec![(1..max_n_nodes, 0..max_n_ports); n_edges],
-        in_ports in vec![(1..max_n_nodes, 0..max_n_ports); n_edges],
+        out_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
+        in_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
     ) -> Vec<Edge> {
         out_ports.into_iter().zip(in_ports).map(|((src_v, src_p), (target_v, target_p))| {
             Edge {
@@ -39,8 +49,8 @@ prop_compose! {
 prop_compose! {
     /// A random set of distinct edges for a portgraph.
     fn gen_unique_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        out_ports in prop::collection::vec((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
-        in_ports in prop::collection::vec((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
+        out_ports in prop::collection::vec((0..max_n_nodes, 0..max_n_ports), 0..=limit_n_edges(max_n_nodes, max_n_ports, max_n_edges)),
+        in_ports in prop::collection::vec((0..max_n_nodes, 0..max_n_ports), 0..=limit_n_edges(max_n_nodes, max_n_ports, max_n_edges)),
     ) -> Vec<Edge> {
         // Unlike the non-unique case, in this case we do not "control" the number of
         // edges directly. Might make shrinking slightly more difficult.
-- 
2.43.0


From 4263e98bfd7f4e4276f9d9dd30b5b567cf8296f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:21 +0000
Subject: [PATCH 49/49] fix: Update the dynamic topological order without
 recursion

---
 src/algorithms/dynamic.rs | 48 +++++++++++----------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 87854c2..7710d56 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -190,43 +190,21 @@ impl DynamicTopoSort {
     ) -> Vec<NodeIndex> {
         let mut visited = HashSet::new();
         let mut cone = Vec::new();
-        self.dfs(start, &mut visited, &mut cone, bound, graph, dir);
-        cone
-    }
-
-    fn dfs<G: LinkView>(
-        &self,
-        n: NodeIndex,
-        visited: &mut HashSet<NodeIndex>,
-        cone: &mut Vec<NodeIndex>,
-        bound: usize,
-        graph: &G,
-        dir: Direction,
-    ) -> bool {
-        let pos = *self.node_to_pos.get(&n).unwrap();
-        let out_of_bounds = match dir {
-            Direction::Outgoing => pos > bound,
-            Direction::Incoming => pos < bound,
-        };
-        if visited.contains(&n) || out_of_bounds {
-            return false;
-        }
-        visited.insert(n);
-        cone.push(n);
-        if dir == Direction::Outgoing {
-            for neighbor in graph.output_neighbours(n) {
-                if self.dfs(neighbor, visited, cone, bound, graph, dir) {
-                    return true;
-                }
-            }
-        } else {
-            for neighbor in graph.input_neighbours(n) {
-                if self.dfs(neighbor, visited, cone, bound, graph, dir) {
-                    return true;
-                }
+        // An explicit stack, since the cone can be as deep as the graph is long.
+        let mut stack = vec![start];
+        while let Some(node) = stack.pop() {
+            let pos = *self.node_to_pos.get(&node).unwrap();
+            let out_of_bounds = match dir {
+                Direction::Outgoing => pos > bound,
+                Direction::Incoming => pos < bound,
+            };
+            if out_of_bounds || !visited.insert(node) {
+                continue;
             }
+            cone.push(node);
+            stack.extend(graph.neighbours(node, dir));
         }
-        false
+        cone
     }
 
     /// Returns the current topological order (for testing or inspection).
-- 
2.43.0

