From ce7bc2d9c26274637710af49c210a4564d2579bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 01/31] fix: give every node of a saved scene its own local id

update_internal passed its counter by value, so cousins were numbered alike and one
overwrote the other in the written document; the root could keep a stale id.
---
 node_tree_core/src/structs/node_scene.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..a229ed7 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -207,6 +207,7 @@ impl NodeScene {
         let mut document: toml::DocumentMut = toml::DocumentMut::new();
 
         // Go through each node and serialize it:
+        unsafe { (&mut *self.this).set_rid(0) };
         self.update_internal(0);
         self.clone().iterate(|parent, node, is_owner| {
             let node:   &dyn Node         = unsafe { &*node };
@@ -313,7 +314,8 @@ impl NodeScene {
 
     /// Updates the internal RIDs.
     #[inline]
-    pub fn update_internal(&self, mut counter: u64) {
+    /// Returns the last RID that was assigned.
+    pub fn update_internal(&self, mut counter: u64) -> u64 {
         for child in &self.children {
 
             // Update the counter and set it as this child's rid
@@ -321,8 +323,9 @@ impl NodeScene {
             unsafe { (&mut *child.this).set_rid(counter) };
 
             // Recursively traverse the child's children
-            child.update_internal(counter);
+            counter = child.update_internal(counter);
         }
+        counter
     }
 }
 
-- 
2.43.0


From 8cc3e90fb61aa3f3d7a2df7ba0cfe3ac5db487f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 02/31] fix: load nodes whose names contain an underscore

The document key is name_id, so the id follows the last underscore, not the first.
---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index a229ed7..07c9943 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From f4741f0ad68aed88a6f8f1ebe951388c0249b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 03/31] fix: run the loaded hook of a loaded scene's root

The root was never marked as coming from disk, and was handed over before its mark was set.
---
 node_tree_core/src/structs/node_scene.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 07c9943..83c0ef1 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,11 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut root_scene: NodeScene = NodeScene::new_dyn(node);
+                            root_scene.from_disk  = true;
+                    node_scene = Some(root_scene);
+                }
             }
         }
 
@@ -362,7 +366,6 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
-        iterator(None, self.this, self.is_owner);
 
         // Recursive function to traverse the tree
         fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(
@@ -395,6 +398,7 @@ impl Instanceable for NodeScene {
                 self_mut.mark_as_loaded();
             }
         }
+        iterator(None, self_this, self.is_owner);
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From e18a2823232b8162ace75ccafc21954262db4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 04/31] fix: restore the ownership of a loaded scene's root

---
 node_tree_core/src/structs/node_scene.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 83c0ef1..01b2b2e 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -174,6 +174,7 @@ impl NodeScene {
                 None => {
                     let mut root_scene: NodeScene = NodeScene::new_dyn(node);
                             root_scene.from_disk  = true;
+                            root_scene.is_owner   = is_owner;
                     node_scene = Some(root_scene);
                 }
             }
-- 
2.43.0


From b79f0298f27938005c041da758e95ae374e32b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 05/31] fix: free() a node that has children

terminal() was called on the freed node once per descendant instead of on each of them, and
the node was dropped first, so every later step read freed memory.
---
 node_tree_core/src/structs/node_base.rs | 38 ++++++++++++-------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..040f8df 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -598,35 +598,33 @@ impl NodeBase {
         
         // Call the terminal function on this node,
         // before removing it and all it's children nodes from the NodeTree.
-        for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
-
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
+        // Everything that is needed from this node is read up front, as it is dropped along with its children.
+        let rid:     RID               = self.rid;
+        let parent:  Option<RID>       = self.parent;
+        let is_root: bool              = self.is_root();
+        let freed:   Vec<RID>          = self.top_down(true);
+        let tree:    &mut NodeTreeBase = unsafe { &mut *self.tree.unwrap_unchecked() };
+
+        for &node in &freed {
+            if let Some(node) = tree.get_node_mut(node) {
+                node.terminal(TerminationReason::Freed); // Has to be called externally!
             }
+        }
 
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
-
-                        parent.children.remove(child_idx);
-                    }
-                }
-            }
+        // Remove the reference of this node from its parent if it has a parent.
+        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
+            parent.children.retain(|&c_rid| c_rid != rid);
+        }
 
+        for node in freed {
             unsafe {
                 tree.unregister_node(node);
             }
         }
 
         // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        if is_root {
+            tree.terminate();
         }
     }
 
-- 
2.43.0


From 004af1c1c6d6d0d115b35fc3cf89c56b3502bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 06/31] fix: keep processing the frame after a node is freed in
 it

A node that freed itself in process() was still asked for its children, and a node freed by
an earlier sibling was unwrapped.
---
 node_tree_core/src/structs/node_tree_base.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..2871de7 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -376,7 +376,10 @@ impl NodeTreeBase {
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();
+        let node:   &mut dyn Node = match self.get_node_mut(node_rid) {
+            Some(node) => node,
+            None       => return   // It was freed or removed by another node during this frame.
+        };
         
         // Determine the process mode.
         let mut process_mode: ProcessMode = node.process_mode();
@@ -414,7 +417,12 @@ impl NodeTreeBase {
         }
 
         // Go through each of the children and process them, perpetuating the recursive cycle.
-        for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
+        // The node has to be looked up again, as it could have freed itself.
+        let children: Vec<RID> = match self.get_node(node_rid) {
+            Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),
+            None       => return
+        };
+        for child_node in children {
             self.process_tail(child_node, delta, process_mode);
             if self.status == TreeStatus::Terminated {
                 break;
-- 
2.43.0


From 3e2c6b34de6c4e2f236675f3273ffdf9f7482841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 07/31] fix: run every terminal hook of a removed branch before
 taking it apart

A descendant's terminal() ran after its parent was unregistered and dropped, so reaching for
its parent or posting to the log there read freed memory.
---
 node_tree_core/src/structs/node_base.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 040f8df..4ea222c 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -328,15 +328,19 @@ impl NodeBase {
         };
 
         self.children.remove(child_idx);
+        for &queued_rid in &connected {
+            if let Some(queued_node) = unsafe { self.tree_mut().unwrap_unchecked() }.get_node_mut(queued_rid) {
+                queued_node.terminal(TerminationReason::RemovedAsChild);
+            }
+        }
         for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
+            let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
             
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
-
+            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+                queued_node.disconnnect_parent();
+                queued_node.disconnnect_owner();
+                queued_node.disconnnect_tree();
+            }
             self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
         }}
 
-- 
2.43.0


From e83759a4e02eda0cadb242b946fff4163aa9641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 08/31] fix: survive a node that is freed by a loaded or ready
 hook

The ready pass and add_child_from_ptr kept using the node after its hooks had run.
---
 node_tree_core/src/structs/node_base.rs      | 18 +++++-------------
 node_tree_core/src/structs/node_tree_base.rs | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 4ea222c..cb3f193 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -266,23 +266,15 @@ impl NodeBase {
         };
         self.children.push(child_rid);
         
+        // Print the debug information on the child to the console.
+        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
+        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        
         // Call the `ready()` function for the child as long as the call to ready() is not ignored
         // or circumvented..
         if !ignore_ready {
-            unsafe {
-                let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
-                if child.has_just_loaded() {
-                    child.loaded();
-                    child.mark_as_final();
-                }
-                child.ready();
-
-            }
+            unsafe { self.tree_mut().unwrap_unchecked() }.make_ready(child_rid);
         }
-        
-        // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
         child_rid
     }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 2871de7..7acc84a 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -232,13 +232,22 @@ impl NodeTreeBase {
 
         // Go through the initialization history backwards and run each node's `ready()` function.
         for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
-            if node.has_just_loaded() {
+            self.make_ready(rid);
+        }
+    }
+
+    /// Runs a newly added node's `ready()` function, preceded by `loaded()` if it was just loaded in.
+    /// The node is looked up before each step, as a hook may free any node.
+    pub(crate) fn make_ready(&mut self, rid: RID) {
+        if self.get_node(rid).is_some_and(|node| node.has_just_loaded()) {
+            if let Some(node) = self.get_node_mut(rid) {
                 node.loaded();
-                unsafe {
-                    node.mark_as_final();
-                }
             }
+            if let Some(node) = self.get_node_mut(rid) {
+                unsafe { node.mark_as_final(); }
+            }
+        }
+        if let Some(node) = self.get_node_mut(rid) {
             node.ready();
         }
     }
-- 
2.43.0


From 043c07d3b9ef9d04b3af22bcdc5819c8fc16d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 09/31] fix: only run ready() once an added scene is fully in
 place

Like NodeTreeBase::initialize, and as Node::ready documents. Running it while the scene was
still being added also left the rest of the scene with a dangling parent if it freed itself.
---
 node_tree_core/src/structs/node_base.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index cb3f193..d4feb95 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -201,18 +201,26 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        let mut added: Vec<RID> = Vec::new();
         child.iterate(|parent, node, is_owner| {
             if let Some(parent) = parent {
                 unsafe {
                     let parent: &mut dyn Node = &mut *parent;
-                    parent.add_child_from_ptr(node, is_owner, false);
+                    added.push(parent.add_child_from_ptr(node, is_owner, true));
                 }
             } else {
                 unsafe {
-                    self.add_child_from_ptr(node, is_owner, false);
+                    added.push(self.add_child_from_ptr(node, is_owner, true));
                 }
             }
         });
+
+        // Run each node's `ready()` function backwards once the whole scene is in place.
+        if let Some(tree) = self.tree_mut() {
+            for rid in added.into_iter().rev() {
+                tree.make_ready(rid);
+            }
+        }
     }
 
     /// Adds a child to the node via a passed in pointer, automatically renaming it if its
-- 
2.43.0


From 37605b035662b383106628111f9167d3d58352aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 10/31] fix: do not count a node among its own siblings when
 renaming it

Setting a node's name to what it already was gave it a numerical suffix.
---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index d4feb95..4ace74b 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -167,7 +167,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
-- 
2.43.0


From 067bcf69e00e1b74e91a39a8c856104b9f1b1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 11/31] fix: make ensure_unique_name return a name that is not
 taken

It could return a taken name when the siblings were not sorted by suffix, and panicked on
empty names, multi-byte characters and suffixes beyond usize.
---
 node_tree_core/src/utils/functions.rs | 79 +++++----------------------
 1 file changed, 13 insertions(+), 66 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..60898c4 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -31,78 +31,25 @@ use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatu
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
-    }
-
-    // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // If the name is already unique, then return it as it is.
+    if !relative_to.iter().any(|n| n == name) {
         return name.to_string();
     }
 
     // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
-    };
-    
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
+    let name_without_suffix: &str          = name.trim_end_matches(|c: char| c.is_ascii_digit());
+    let given_value:         Option<usize> = name[name_without_suffix.len()..].parse::<usize>().ok();
+
+    // Give it the closest numerical suffix to the one it currently has (counting upwards) that is
+    // not taken.
+    let mut new_value: usize = given_value.and_then(|value| value.checked_add(1)).unwrap_or(1);
+    loop {
+        let new_name: String = format!("{}{}", name_without_suffix, new_value);
+        if !relative_to.iter().any(|n| *n == new_name) {
+            return new_name;
         }
+        new_value = new_value.wrapping_add(1);
     }
-
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
-
-    // Order all of the names with a numerical suffix.
-    // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
-    // Otherwise, give it the closest numerical suffix to the one it currently has (counting
-    // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
-        }
-        break;
-    }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From 25f1f752d0ea92cd986fb8cadba57c095be14abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 12/31] fix: release a singleton's previous name when it is
 registered under another

Only one of the names was forgotten when the node left the tree, so the other kept
resolving to its id, which is handed to the next node that is added.
---
 node_tree_core/src/structs/node_tree_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 7acc84a..2cd19c1 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -494,6 +494,8 @@ impl NodeTreeBase {
             return Some(false);
         }
 
+        // A node is only reachable by one name, so release the one it may have had before.
+        self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);
         self.identity.insert(rid, NodeIdentity::UniqueName(name.clone()));
         self.singletons.insert(name, rid);
         Some(true)
-- 
2.43.0


From 1302ddf6f4732c9a79af4e733171f081fab043e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 13/31] fix: keep absolute node paths absolute

get_absolute_path() returned a relative path, printing a path dropped its leading slash (and
panicked on an empty one), and the empty string was read as an absolute path.
---
 node_tree_core/src/structs/node_base.rs |  2 +-
 node_tree_core/src/structs/node_path.rs | 17 ++++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 4ace74b..e96c05c 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -541,7 +541,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&("/".to_string() + &path))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..5e57388 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -147,12 +147,8 @@ impl NodePath {
     /// "node_a/node_b/node_c/target_node"
     /// ```
     pub fn from_str(str: &str) -> NodePath {
-        let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
-        
-        if abs {
-            path.pop_front();
-        }
+        let path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
+        let abs:  bool              = str.starts_with('/');
 
         let mut np: NodePath = NodePath {
             path,
@@ -164,11 +160,14 @@ impl NodePath {
 
     /// Converts the path to a string, consuming it.
     pub fn to_string(mut self) -> String {
-        let mut out: String = String::new();
+        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
         while let Some(segment) = self.pop_front() {
-            out += &(segment.to_string() + "/");
+            out += &segment.to_string();
+            if !self.path.is_empty() {
+                out += "/";
+            }
         }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+        out
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From a0092de5c106fb97f5b0b9b4d015e6e2c0bf6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 14/31] fix: never hand out a resource id twice

A tree pointer to a freed node became valid again, for another node, once its id was reused,
and a stale connection id disconnected someone else. from_vec also handed out its last id again.
---
 node_tree_core/src/structs/rid.rs | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..4bfdf87 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -33,8 +33,7 @@ pub type RID = u64;
 #[derive(Debug, Clone, Default)]
 pub struct RIDHolder<T> {
     data:    HashMap<RID, T>,
-    highest: RID,
-    vacant:  Vec<RID>
+    highest: RID   // The next RID to hand out. RIDs are never reused, so that a stale one cannot refer to another item.
 }
 
 impl <T> RIDHolder<T> {
@@ -43,31 +42,23 @@ impl <T> RIDHolder<T> {
     pub fn new() -> Self {
         RIDHolder {
             data:    HashMap::new(),
-            highest: 0,
-            vacant:  Vec::new()
+            highest: 0
         }
     }
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
-            highest,
-            vacant:  Vec::new()
+            highest
         }
     }
 
     /// Adds a new item to the holder, registering it under the returned ID.
     pub fn push(&mut self, item: T) -> RID {
-        let rid: RID = match self.vacant.pop() {
-            Some(id) => id,
-            None     => {
-                let id: RID = self.highest;
-                self.highest += 1;
-                id
-            }
-        };
+        let rid: RID = self.highest;
+        self.highest += 1;
 
         self.data.insert(rid, item);
         rid
@@ -88,13 +79,7 @@ impl <T> RIDHolder<T> {
     /// Removes an item from the collection by the passed RID.
     /// Returns the item.
     pub fn take(&mut self, rid: RID) -> Option<T> {
-        match self.data.remove(&rid) {
-            None       => None,
-            Some(item) => {
-                self.vacant.push(rid);
-                Some(item)
-            }
-        }
+        self.data.remove(&rid)
     }
 
     /// Returns an iter for each of the items.
-- 
2.43.0


From 34fdc0bb490ab620fdd3fa26e0211cbf0472915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 15/31] fix: do not hold a signal's lock while its hooks are
 called

A hook that emitted, connected to or disconnected from the signal that called it deadlocked.
---
 node_tree_core/src/structs/signals.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 17e5f42..19a75a7 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -128,23 +128,27 @@ impl <T> Signal<T> {
     
     /// Emits the signal, calling all connected hooks.
     pub fn emit<E: Element<T>>(&self, parameters: E) {
-        let mut hooks:           MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
-        let mut removed_signals: Vec<RID>                    = Vec::with_capacity(hooks.len());
-        let     parameters:      &T                          = parameters.as_inner();
+        let parameters: &T       = parameters.as_inner();
+        let connected:  Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
 
-        for (&rid, &(hook, mode)) in hooks.iter_enumerated() {
-            unsafe {
-                (*hook)(parameters);
-            }
+        for rid in connected {
+
+            // The lock is released before the hook is called, so that it may use this signal.
+            let mut hooks: MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
+            let (hook, mode) = match hooks.retrieve(rid) {
+                Some(&connection) => connection,
+                None              => continue   // Disconnected by a previous hook.
+            };
 
             match mode {
                 ConnectionType::UntilDisconnected => (),
-                ConnectionType::Once              => removed_signals.push(rid)
+                ConnectionType::Once              => { hooks.take(rid); }
             }
-        }
+            drop(hooks);
 
-        for idx in removed_signals.into_iter().rev() {
-            hooks.take(idx);
+            unsafe {
+                (*hook)(parameters);
+            }
         }
     }
 
-- 
2.43.0


From 2fdf200838eb4bc3ff6f24863e149ad323dec6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 16/31] fix: panic cleanly when the owner of a failed pointer
 or result is gone

The owner was unwrapped unchecked to post the failure to the log.
---
 node_tree_core/src/structs/tree_option.rs  | 4 +++-
 node_tree_core/src/structs/tree_pointer.rs | 8 ++++++--
 node_tree_core/src/structs/tree_result.rs  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..5203a8b 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -484,7 +484,9 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(msg));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..08b858a 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -248,7 +248,9 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -462,7 +464,9 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..72e5f3e 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -435,7 +435,9 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{msg}: {error:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
-- 
2.43.0


From 3116261551aa21ea2d5d7cbaa9eb70cb41dba31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 17/31] fix: load exported characters outside of ASCII

---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..65ac4d7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From 17ea6c85d7b9cdb3195b407def925fbad9550666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 18/31] fix: load exported arrays without zeroed elements

---
 node_tree_core/src/traits/exportable.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 65ac4d7..8d844b6 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,7 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From 26b951b18169c9cc662c27af615569182281e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 19/31] fix: reject a saved duration that is out of range
 instead of panicking

---
 node_tree_core/src/traits/exportable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 8d844b6..bcd353e 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -318,7 +318,7 @@ impl Exportable for time::Duration {
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        time::Duration::try_from_secs_f64(value.as_float()?).ok()
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From 59eb6bbc01a0a16190143f14780ef0b2ac32311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 20/31] fix: check the node a dynamic pointer points to for a
 trait

---
 node_tree_core/src/structs/tree_pointer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 08b858a..bce47b3 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -387,10 +387,10 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        match unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n }) {
+            Some(node) => <dyn Node as CastRef>::impls::<T>(node),
+            None       => false
+        }
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From 90e6f070ac8804860cab91553d1ffb54f55dc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 21/31] fix: treat an exported field of a ghost type as a ghost

---
 node_tree_core/src/structs/node_field.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node_tree_core/src/structs/node_field.rs b/node_tree_core/src/structs/node_field.rs
index b53bb43..8bd7089 100644
--- a/node_tree_core/src/structs/node_field.rs
+++ b/node_tree_core/src/structs/node_field.rs
@@ -314,6 +314,8 @@ impl <T: Exportable + Default> Voidable for ExportableField<T> {
 }
 
 impl <T: Exportable> Exportable for ExportableField<T> {
+    unsafe fn is_ghost_export(&self) -> bool { T::is_ghost_export_type() }
+
     fn to_value(&self) -> toml_edit::Value {
         self.0.to_value()
     }
-- 
2.43.0


From 6818b3f4d7a54b1c6643e768092c568f4cc2089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 22/31] fix: honour the value given to an export default field

---
 node_tree_derive/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..2b8bc4a 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -538,9 +538,15 @@ pub fn class(input: TokenStream) -> TokenStream {
                     #name: node_tree::structs::node_field::ExportableField::new(#name)
                 }
             },
-            FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
-            }, 
+            FieldKind::ExportDefault => if let Some(default_value) = &field.init {
+                quote! {
+                    #name: node_tree::structs::node_field::ExportableField::new(#default_value)
+                }
+            } else {
+                quote! {
+                    #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                }
+            },
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
                     #name: node_tree::structs::node_field::UniqueField::new(#default_value)
-- 
2.43.0


From 3b105cde80cb49b38bb9f0fe7b0c172c56854327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 23/31] fix: report an invalid path the same way for dynamic
 pointers

---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index e96c05c..90a6119 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -456,7 +456,7 @@ impl NodeBase {
                 }
             },
             None => unsafe {
-                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::InvalidRootPath(path_str.into())))
+                TreeResult::new(self.tree.unwrap_unchecked(), self.rid, Err(NodeError::InvalidPath(path_str.into())))
             }
         }
     }
-- 
2.43.0


From e26563bca013d5e77b94f500632a2f46fef1181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 24/31] fix: allow default fields whose types have parameters

---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 2b8bc4a..155f12d 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -544,7 +544,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             } else {
                 quote! {
-                    #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                    #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
                 }
             },
             FieldKind::Unique => if let Some(default_value) = &field.init {
@@ -557,7 +557,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty>::default())
             }
         }
     });
-- 
2.43.0


From 51a151ec9d1e833d11279350ef18fecfa657d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 25/31] fix: keep the variables of scene! apart from the user's

---
 node_tree_derive/src/generator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..e3c8d5f 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ Span, TokenStream as TokenStream2 };
 
 use crate::parser::*;
 
@@ -18,6 +18,11 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
             }
         },
         SceneNode::Node { node_type, params, settings, name, children } => {
+
+            // These must not be confused with the variables that the user refers to.
+            let node:  syn::Ident = syn::Ident::new("node", Span::mixed_site());
+            let scene: syn::Ident = syn::Ident::new("scene", Span::mixed_site());
+
             let params: TokenStream2 = match params {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
@@ -26,7 +31,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +39,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene: NodeScene = NodeScene::new(#node);
                     #(
-                        scene.append(#children);
+                        #scene.append(#children);
                     )*
-                    scene
+                    #scene
                 }
             }
         }
-- 
2.43.0


From 5c10a42b16f9c83ce64226365213ea52aff7f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 26/31] fix: wrap the whole expression of a scene! setting

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index e3c8d5f..78a2e78 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -39,7 +39,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    #node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From cdf3e8255ad7410de81b727f5393195325a094a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 27/31] fix: Signal::emit used the signal after a hook had
 freed its node

---
 node_tree_core/src/structs/signals.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 19a75a7..d7f4e72 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -131,10 +131,13 @@ impl <T> Signal<T> {
         let parameters: &T       = parameters.as_inner();
         let connected:  Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
 
+        // A hook may free the node that this signal belongs to, so the connections are kept alive until the end.
+        let kept: MutableArc<EventHandler<T>> = self.hooks.clone();
+
         for rid in connected {
 
             // The lock is released before the hook is called, so that it may use this signal.
-            let mut hooks: MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
+            let mut hooks: MutexGuard<EventHandler<T>> = kept.lock().unwrap();
             let (hook, mode) = match hooks.retrieve(rid) {
                 Some(&connection) => connection,
                 None              => continue   // Disconnected by a previous hook.
-- 
2.43.0


From 3f74c94e504eb829f8c3ea6f80c0e0c378921c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 28/31] fix: remove_child used the node after a terminal hook
 had freed it

---
 node_tree_core/src/structs/node_base.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 90a6119..a659d81 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -328,23 +328,31 @@ impl NodeBase {
         };
 
         self.children.remove(child_idx);
+
+        // Everything that is needed from this node is read up front, as a terminal hook may free it.
+        let rid:         RID               = self.rid;
+        let parent_name: String            = self.name().to_string();
+        let tree:        &mut NodeTreeBase = unsafe { &mut *self.tree.unwrap_unchecked() };
+
         for &queued_rid in &connected {
-            if let Some(queued_node) = unsafe { self.tree_mut().unwrap_unchecked() }.get_node_mut(queued_rid) {
+            if let Some(queued_node) = tree.get_node_mut(queued_rid) {
                 queued_node.terminal(TerminationReason::RemovedAsChild);
             }
         }
         for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
             let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
             
-            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+            if let Some(queued_node) = tree.get_node_mut(queued_rid) {
                 queued_node.disconnnect_parent();
                 queued_node.disconnnect_owner();
                 queued_node.disconnnect_tree();
             }
-            self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
+            tree.unregister_node(queued_rid);
         }}
 
-        self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        if tree.get_node(rid).is_some() {
+            tree.post(rid, Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, parent_name)));
+        }
         true 
     }
 
-- 
2.43.0


From c50af6bdc2f988de52cb6a6dfc4b8e7045fe00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 29/31] fix: NodeScene::clone freed the original's node when a
 node's clone panicked

---
 node_tree_core/src/structs/node_scene.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 01b2b2e..9a7dd02 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -337,14 +337,13 @@ impl NodeScene {
 impl Clone for NodeScene {
     fn clone(&self) -> Self {
         let cloned_node = unsafe {
-            let     node_original: Box<dyn Node> = Box::from_raw(self.this);
+            let     node_original: &dyn Node     = &*self.this; // Only borrowed, as a clone that panics must not deallocate it.
             let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
             
             node_new.set_rid(node_original.rid());
             node_new.set_name(node_original.name());
 
-            let _ = Box::into_raw(node_original); // Convert the box back so that its instance isn't deallocated when dropped.
-                    Box::into_raw(node_new)
+            Box::into_raw(node_new)
         };
 
         // Recursively clone children
-- 
2.43.0


From 88aaf49a986d2db11c63c63bdf562f44078729af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 30/31] fix: root() of a tree whose root was freed panics
 instead of reading a missing node, and absolute paths lead nowhere there

---
 node_tree_core/src/structs/node_path.rs      |  9 +++++----
 node_tree_core/src/structs/node_tree_base.rs | 14 +++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 5e57388..c37c573 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -46,7 +46,7 @@
 use std::fmt;
 use std::collections::VecDeque;
 
-use crate::traits::node_getter::NodeGetter;
+use crate::traits::{ node::Node, node_getter::NodeGetter };
 use super::{ node_tree_base::NodeTreeBase, rid::RID };
 
 
@@ -209,11 +209,12 @@ impl NodeGetter for NodePath {
             return tree.get_node(caller?)?.get_node_raw(self.clone());
         }
         
-        let mut absolute_path: NodePath = self.clone();
-        if Some(tree.root().name()) != absolute_path.pop_front_as_string().as_deref() {
+        let     root:          &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?;   // There is none left once it was freed.
+        let mut absolute_path: NodePath  = self.clone();
+        if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {
             return None;
         }
-        tree.root().get_node_raw(absolute_path)
+        root.get_node_raw(absolute_path)
     }
 }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 2cd19c1..72e23b0 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -162,7 +162,7 @@ pub struct NodeTreeBase {
 impl NodeTreeBase {
 
     /// The RID for the root node.
-    const ROOT_RID: RID = 0;
+    pub(crate) const ROOT_RID: RID = 0;
 
     /// Creates an empty `NodeTreeBase`, ready for initialization.
     unsafe fn new(logger_verbosity: LoggerVerbosity) -> Self {
@@ -288,17 +288,17 @@ impl NodeTreeBase {
     }
 
     /// Gets a reference to the Root node.
+    /// # Panics
+    /// Panics if the Root node has been freed.
     pub fn root(&self) -> &dyn Node {
-        unsafe {
-            &**self.nodes.retrieve(Self::ROOT_RID).unwrap_unchecked()
-        }
+        self.get_node(Self::ROOT_RID).expect("The root node of this tree has been freed!")
     }
     
     /// Gets a mutable reference to the Root node.
+    /// # Panics
+    /// Panics if the Root node has been freed.
     pub fn root_mut(&mut self) -> &mut dyn Node {
-        unsafe {
-            &mut **self.nodes.modify(Self::ROOT_RID).unwrap_unchecked()
-        }
+        self.get_node_mut(Self::ROOT_RID).expect("The root node of this tree has been freed!")
     }
 
     /// Gets a raw pointer to a node reference given an `RID`.
-- 
2.43.0


From 7d9d8d04e57e86f5cf8ff8d47f690729f05411e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 31/31] fix: TreeResult::as_deref_mut borrows the result for as
 long as what it returns is used, not for ever

---
 node_tree_core/src/structs/tree_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index 72e5f3e..9622e9a 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -220,7 +220,7 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     /// Coerces the `Ok` variant of the original `Result` via `DerefMut`
     /// and returns the new `Result`.
     #[inline]
-    pub fn as_deref_mut(&'a mut self) -> TreeResult<'a, &'a mut T::Target, &'a mut E>
+    pub fn as_deref_mut(&mut self) -> TreeResult<&mut T::Target, &mut E>
     where
         T: DerefMut,
     { self.as_mut().map(|t| t.deref_mut()) }
-- 
2.43.0

