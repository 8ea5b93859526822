From c9675765f1db417d649c7e35473f655d07f669e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 01/25] fix: RIDHolder::from_vec reserves every listed id and
 accepts an empty list

---
 node_tree_core/src/structs/rid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..20e588e 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -50,7 +50,7 @@ impl <T> RIDHolder<T> {
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
             highest,
-- 
2.43.0


From 1cc8d66098ec3c3d437211489c48d6b9a52a2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 02/25] fix: ensure_unique_name keeps free names and handles
 every string

---
 node_tree_core/src/utils/functions.rs | 76 ++++-----------------------
 1 file changed, 11 insertions(+), 65 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..4cc357b 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -31,78 +31,24 @@ use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatu
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
-    }
-
-    // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // If the name is not taken, then there is no need to change it.
+    if !relative_to.iter().any(|taken| taken == name) {
         return name.to_string();
     }
 
-    // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
-    };
-    
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
-        }
-    }
+    // Otherwise strip the name bare of any numerical suffix and count upwards from the number that
+    // it currently has until a name is found which is not taken.
+    let     stem:   &str  = name.trim_end_matches(|c: char| c.is_ascii_digit());
+    let mut number: usize = name[stem.len()..].parse::<usize>().unwrap_or(0);
 
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
+    loop {
+        number = number.wrapping_add(1);
 
-    // Order all of the names with a numerical suffix.
-    // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
-    // Otherwise, give it the closest numerical suffix to the one it currently has (counting
-    // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
+        let candidate: String = format!("{}{}", stem, number);
+        if !relative_to.iter().any(|taken| *taken == candidate) {
+            return candidate;
         }
-        break;
     }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From 6892c199b234a0aca4a33d0f3295dbe2b94e61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 03/25] fix: set_name does not treat the node itself as a
 sibling

---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..beb3027 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -167,7 +167,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
-- 
2.43.0


From 2303f91e2a6808eb196e2de90876f9809357186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 04/25] fix: NodePath prints empty and absolute paths so that
 they parse back

---
 node_tree_core/src/structs/node_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..5ebe6b4 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -148,7 +148,7 @@ impl NodePath {
     /// ```
     pub fn from_str(str: &str) -> NodePath {
         let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
+        let     abs:  bool              = str.starts_with('/');
         
         if abs {
             path.pop_front();
@@ -168,7 +168,9 @@ impl NodePath {
         while let Some(segment) = self.pop_front() {
             out += &(segment.to_string() + "/");
         }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+        out.pop();   // Remove the trailing separator, if there is one.
+
+        if self.abs { "/".to_string() + &out } else { out }
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From 1ba6acafc072cf22175aa073db605f946eb163a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 05/25] fix: get_absolute_path returns an absolute path

---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index beb3027..d53bf47 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -537,7 +537,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&("/".to_string() + &path))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
-- 
2.43.0


From 6563b533fa82d4a75038477463d128e2f95923f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 06/25] fix: remove_child notifies the whole branch before
 disconnecting any of it

---
 node_tree_core/src/structs/node_base.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index d53bf47..d13ac75 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -328,14 +328,23 @@ impl NodeBase {
         };
 
         self.children.remove(child_idx);
+
+        // Every removed node is notified before any of them is disconnected, as a node may still
+        // refer to its parents in its `terminal()` function.
+        for &queued_rid in &connected { unsafe {
+            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+                queued_node.terminal(TerminationReason::RemovedAsChild);
+            }
+        }}
+
         for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
+            let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
             
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
+            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+                queued_node.disconnnect_parent();
+                queued_node.disconnnect_owner();
+                queued_node.disconnnect_tree();
+            }
 
             self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
         }}
-- 
2.43.0


From d90bad3c604dfe773614641464d19b659379d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 07/25] fix: free notifies every node of the branch and does
 not touch destroyed nodes

---
 node_tree_core/src/structs/node_base.rs | 42 +++++++++++++------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index d13ac75..c7866f9 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -605,37 +605,39 @@ impl NodeBase {
             panic!("Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!");
         }
         
-        // Call the terminal function on this node,
-        // before removing it and all it's children nodes from the NodeTree.
-        for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
-
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
+        // Nothing of this node can be accessed once it is unregistered, as that destroys it.
+        let branch:  Vec<RID>          = self.top_down(true);
+        let is_root: bool              = self.is_root();
+        let tree:    &mut NodeTreeBase = unsafe { &mut *self.tree.unwrap_unchecked() };
+
+        // Call the terminal function on this node and on all of it's children nodes,
+        // before removing them from the NodeTree.
+        for &node in &branch {
+            if let Some(node) = tree.get_node_mut(node) {
+                node.terminal(TerminationReason::Freed); // Has to be called externally!
             }
+        }
 
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
+        // Remove the reference of this node from its parent if it has a parent.
+        if let Some(parent) = self.parent {
+            unsafe {
+                let rid:       RID           = self.rid;
+                let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
+                let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
 
-                        parent.children.remove(child_idx);
-                    }
-                }
+                parent.children.remove(child_idx);
             }
+        }
 
+        for node in branch {
             unsafe {
                 tree.unregister_node(node);
             }
         }
 
         // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        if is_root {
+            tree.terminate();
         }
     }
 
-- 
2.43.0


From 2cb5065241296c9cea76fc4224e9c1a19370a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 08/25] fix: nodes removed during a frame are skipped by the
 rest of the frame

---
 node_tree_core/src/structs/node_tree_base.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..888b82e 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -376,7 +376,10 @@ impl NodeTreeBase {
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();
+        let node:   &mut dyn Node = match self.get_node_mut(node_rid) {
+            Some(node) => node,
+            None       => return   // The node was removed earlier in this frame.
+        };
         
         // Determine the process mode.
         let mut process_mode: ProcessMode = node.process_mode();
@@ -413,6 +416,12 @@ impl NodeTreeBase {
             TreeStatus::Terminated  => ()
         }
 
+        // The node may have been removed by its own behaviour.
+        let node: &dyn Node = match self.get_node(node_rid) {
+            Some(node) => node,
+            None       => return
+        };
+
         // Go through each of the children and process them, perpetuating the recursive cycle.
         for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
             self.process_tail(child_node, delta, process_mode);
-- 
2.43.0


From a9cb11657a344c1f96a9d58789f0f64b5d09571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 09/25] fix: nodes that are removed while a scene is readied
 are skipped

---
 node_tree_core/src/structs/node_base.rs      | 6 ++++--
 node_tree_core/src/structs/node_tree_base.rs | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index c7866f9..7362a31 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -281,8 +281,10 @@ impl NodeBase {
         }
         
         // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        // The child may have removed itself in its `ready()` function.
+        if let Some(child) = unsafe { self.tree().unwrap_unchecked().get_node(child_rid) } {
+            self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        }
         child_rid
     }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 888b82e..d0eea69 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -232,7 +232,10 @@ impl NodeTreeBase {
 
         // Go through the initialization history backwards and run each node's `ready()` function.
         for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
+            let node: &mut dyn Node = match self.get_node_mut(rid) {
+                Some(node) => node,
+                None       => continue   // The node was removed by the `ready()` function of another node.
+            };
             if node.has_just_loaded() {
                 node.loaded();
                 unsafe {
-- 
2.43.0


From 97acacfdc2cfabefe1a2f3f70e043f04775d90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 10/25] fix: registering a singleton again releases its former
 name

---
 node_tree_core/src/structs/node_tree_base.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index d0eea69..d7f6344 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -489,7 +489,10 @@ impl NodeTreeBase {
             return Some(false);
         }
 
-        self.identity.insert(rid, NodeIdentity::UniqueName(name.clone()));
+        // A node that is registered again is no longer accessible by its former name.
+        if let Some(NodeIdentity::UniqueName(former)) = self.identity.insert(rid, NodeIdentity::UniqueName(name.clone())) {
+            self.singletons.remove(&former);
+        }
         self.singletons.insert(name, rid);
         Some(true)
     }
-- 
2.43.0


From 3349973a22267316eed2e8b30cb73d8d651ce576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 11/25] fix: integers outside of the range of the exported type
 are rejected

---
 node_tree_core/src/traits/exportable.rs       | 12 +++----
 node_tree_core/src/traits/glam_exportables.rs | 36 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..3535860 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -120,7 +120,7 @@ impl Exportable for u8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u8),
+            toml::Value::Integer(i) => u8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -132,7 +132,7 @@ impl Exportable for u16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u16),
+            toml::Value::Integer(i) => u16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -144,7 +144,7 @@ impl Exportable for u32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u32),
+            toml::Value::Integer(i) => u32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -168,7 +168,7 @@ impl Exportable for i8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i8),
+            toml::Value::Integer(i) => i8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -180,7 +180,7 @@ impl Exportable for i16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i16),
+            toml::Value::Integer(i) => i16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -192,7 +192,7 @@ impl Exportable for i32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i32),
+            toml::Value::Integer(i) => i32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index 639f68f..50e8a33 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -70,7 +70,7 @@ impl Exportable for g_u8::U8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec2(x.as_integer()? as u8, y.as_integer()? as u8));
+                        return Some(g_u8::u8vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -87,7 +87,7 @@ impl Exportable for g_u8::U8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec3(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8));
+                        return Some(g_u8::u8vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -104,7 +104,7 @@ impl Exportable for g_u8::U8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec4(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8, w.as_integer()? as u8));
+                        return Some(g_u8::u8vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -122,7 +122,7 @@ impl Exportable for g_u16::U16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec2(x.as_integer()? as u16, y.as_integer()? as u16));
+                        return Some(g_u16::u16vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -139,7 +139,7 @@ impl Exportable for g_u16::U16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec3(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16));
+                        return Some(g_u16::u16vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -156,7 +156,7 @@ impl Exportable for g_u16::U16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec4(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16, w.as_integer()? as u16));
+                        return Some(g_u16::u16vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -174,7 +174,7 @@ impl Exportable for g_u32::UVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec2(x.as_integer()? as u32, y.as_integer()? as u32));
+                        return Some(g_u32::uvec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -191,7 +191,7 @@ impl Exportable for g_u32::UVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec3(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32));
+                        return Some(g_u32::uvec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -208,7 +208,7 @@ impl Exportable for g_u32::UVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec4(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32, w.as_integer()? as u32));
+                        return Some(g_u32::uvec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -278,7 +278,7 @@ impl Exportable for g_i8::I8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec2(x.as_integer()? as i8, y.as_integer()? as i8));
+                        return Some(g_i8::i8vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -295,7 +295,7 @@ impl Exportable for g_i8::I8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec3(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8));
+                        return Some(g_i8::i8vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -312,7 +312,7 @@ impl Exportable for g_i8::I8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec4(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8, w.as_integer()? as i8));
+                        return Some(g_i8::i8vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -330,7 +330,7 @@ impl Exportable for g_i16::I16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec2(x.as_integer()? as i16, y.as_integer()? as i16));
+                        return Some(g_i16::i16vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -347,7 +347,7 @@ impl Exportable for g_i16::I16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec3(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16));
+                        return Some(g_i16::i16vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -364,7 +364,7 @@ impl Exportable for g_i16::I16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec4(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16, w.as_integer()? as i16));
+                        return Some(g_i16::i16vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -382,7 +382,7 @@ impl Exportable for g_i32::IVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec2(x.as_integer()? as i32, y.as_integer()? as i32));
+                        return Some(g_i32::ivec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -399,7 +399,7 @@ impl Exportable for g_i32::IVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec3(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32));
+                        return Some(g_i32::ivec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -416,7 +416,7 @@ impl Exportable for g_i32::IVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec4(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32, w.as_integer()? as i32));
+                        return Some(g_i32::ivec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
-- 
2.43.0


From 6801b3a8908dba9c2f53c601e3aa9e45b70b4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 12/25] fix: exported characters outside of ASCII can be loaded
 back

---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3535860..dda96a5 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From c1134301b924f9f218783503cbc82dc630cc1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 13/25] fix: loading an invalid duration does not panic

---
 node_tree_core/src/traits/exportable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index dda96a5..161a20f 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -318,7 +318,7 @@ impl Exportable for time::Duration {
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        time::Duration::try_from_secs_f64(value.as_float()?).ok()
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From 85dffaaa90f2fec962c21b2d693b5a267c883363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 14/25] fix: arrays of types without a zeroed representation
 can be loaded

---
 node_tree_core/src/traits/exportable.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 161a20f..c517cc7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,7 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From 568432df4c7ee84c0ee5a223a9f3b80b9659380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 15/25] fix: every node of a saved scene gets its own id

---
 node_tree_core/src/structs/node_scene.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..96edf1c 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -207,6 +207,7 @@ impl NodeScene {
         let mut document: toml::DocumentMut = toml::DocumentMut::new();
 
         // Go through each node and serialize it:
+        unsafe { (&mut *self.this).set_rid(0) };
         self.update_internal(0);
         self.clone().iterate(|parent, node, is_owner| {
             let node:   &dyn Node         = unsafe { &*node };
@@ -313,7 +314,9 @@ impl NodeScene {
 
     /// Updates the internal RIDs.
     #[inline]
-    pub fn update_internal(&self, mut counter: u64) {
+    ///
+    /// Returns the last RID that was given out.
+    pub fn update_internal(&self, mut counter: u64) -> u64 {
         for child in &self.children {
 
             // Update the counter and set it as this child's rid
@@ -321,8 +324,9 @@ impl NodeScene {
             unsafe { (&mut *child.this).set_rid(counter) };
 
             // Recursively traverse the child's children
-            child.update_internal(counter);
+            counter = child.update_internal(counter);
         }
+        counter
     }
 }
 
-- 
2.43.0


From 9baefe9f7f4df5de9b34068c70e15e3119dd86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 16/25] fix: scenes whose node names contain underscores can be
 loaded

---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 96edf1c..9fbdd06 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From e5142a5ee6e7970657fbe3068f04beed49b54864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 17/25] fix: the root of a loaded scene keeps its ownership and
 is announced as loaded

---
 node_tree_core/src/structs/node_scene.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 9fbdd06..c5cb0b6 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,13 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut new_scene: NodeScene = NodeScene::new_dyn(node);
+                            new_scene.from_disk  = true;
+                            new_scene.is_owner   = is_owner;
+
+                    node_scene = Some(new_scene);
+                }
             }
         }
 
@@ -363,6 +369,12 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
+        if self.from_disk {
+            let self_mut: &mut dyn Node = unsafe { &mut *self.this };
+            unsafe {
+                self_mut.mark_as_loaded();
+            }
+        }
         iterator(None, self.this, self.is_owner);
 
         // Recursive function to traverse the tree
@@ -390,12 +402,6 @@ impl Instanceable for NodeScene {
 
         // Start the traversal from the root.
         let self_this: *mut dyn Node = self.this;
-        if self.from_disk {
-            let self_mut:  &mut dyn Node = unsafe { &mut *self_this };
-            unsafe {
-                self_mut.mark_as_loaded();
-            }
-        }
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From da70934c5a383e338207833f78ecd29903f5f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 18/25] hook: expose the tree status under cfg(node_tree_verif)

---
 node_tree_core/src/structs/node_tree_base.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index d7f6344..41df84d 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -537,6 +537,23 @@ impl NodeTreeBase {
     }
 }
 
+/// Verification hooks, which are only compiled with `--cfg node_tree_verif`.
+/// There is no public way to read the status in between frames or to pause a tree.
+#[allow(unexpected_cfgs)]
+#[cfg(node_tree_verif)]
+impl NodeTreeBase {
+
+    /// Gets the tree's current status.
+    pub fn verif_status(&self) -> TreeStatus {
+        self.status
+    }
+
+    /// Sets the tree's current status.
+    pub fn verif_set_status(&mut self, status: TreeStatus) {
+        self.status = status;
+    }
+}
+
 
 impl <'a> NodeGetter for &'a str {
     fn get_from(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> {
-- 
2.43.0


From 45bc586dedbc634fb45fb0619e4b364a0104744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 19/25] fix: TreeResult::and_then keeps the tree and owner of
 the result it is called on

---
 node_tree_core/src/structs/tree_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..c6fbb6d 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -349,8 +349,8 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     #[inline]
     pub fn and_then<U, F: FnOnce(T) -> TreeResult<'a, U, E>>(self, op: F) -> TreeResult<'a, U, E> {
         match self.object {
-            Ok(t)  => op(t),
-            Err(e) => TreeResult { tree: self.tree, owner: self.owner, object: Err(e), p_life: self.p_life }
+            Ok(t)  => TreeResult { tree: self.tree, owner: self.owner, object: op(t).to_result(), p_life: self.p_life },
+            Err(e) => TreeResult { tree: self.tree, owner: self.owner, object: Err(e),            p_life: self.p_life }
         }
     }
 
-- 
2.43.0


From bd7918d0966da93802257fba60799762a953e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 20/25] fix: TpDyn::is_of tests the node that the pointer leads
 to

---
 node_tree_core/src/structs/tree_pointer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..e02a508 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -385,10 +385,10 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        match self.try_get().to_option() {
+            Some(inner) => <dyn Node as CastRef>::impls::<T>(inner),
+            None        => false
+        }
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From 801fd5097655f82ccd284ce2cea240c5e3cd7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 21/25] fix: failing pointers, options and results panic when
 their owner is gone

---
 node_tree_core/src/structs/tree_option.rs  | 4 +++-
 node_tree_core/src/structs/tree_pointer.rs | 8 ++++++--
 node_tree_core/src/structs/tree_result.rs  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..5203a8b 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -484,7 +484,9 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(msg));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index e02a508..b6c95d1 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -248,7 +248,9 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -462,7 +464,9 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index c6fbb6d..bb0873a 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -435,7 +435,9 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{msg}: {error:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
-- 
2.43.0


From 808b562319c1a379daf2af4e346884d842e8fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 22/25] fix: default fields can have a generic type

The initial value was written as `Vec<u8>::default()`, which does not parse.
---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..eadd89c 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -539,7 +539,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
             }, 
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
@@ -551,7 +551,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty>::default())
             }
         }
     });
-- 
2.43.0


From 6e1bbb392a2b6d57392bd9987cbe166de4ff59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 23/25] fix: scene! settings can be any expression

`field: -1` and `field: a + b` wrapped only a part of the expression.
---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..427aa36 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -34,7 +34,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 3f424301f681f4f905466343b8fff697a8da14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 24/25] fix: an initial value of an `export default` field is
 rejected

It was accepted and silently replaced by the default of the type.
---
 node_tree_derive/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/parser.rs b/node_tree_derive/src/parser.rs
index 8cdaa5d..db9399b 100644
--- a/node_tree_derive/src/parser.rs
+++ b/node_tree_derive/src/parser.rs
@@ -369,7 +369,7 @@ impl Parse for Class {
                 };
 
                 if let Some(ref default_value) = default_value {
-                    if item_kind == FieldKind::Default {
+                    if item_kind.supports_default_init() {
                         return Err(syn::Error::new_spanned(default_value, "A field with the attribute `default` cannot have an initialized value"));
                     }
                 }
-- 
2.43.0


From 6e3f0d6575e0c088760ab227ca1d4bbb8cc134dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 25/25] fix: variables of scene! cannot be taken for those of
 the caller

---
 node_tree_derive/src/generator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 427aa36..1c810c6 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ Ident, Span, TokenStream as TokenStream2 };
 
 use crate::parser::*;
 
@@ -18,6 +18,11 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
             }
         },
         SceneNode::Node { node_type, params, settings, name, children } => {
+
+            // The given expressions may use variables of these names that are not ours.
+            let node_var:  Ident = Ident::new("node",  Span::mixed_site());
+            let scene_var: Ident = Ident::new("scene", Span::mixed_site());
+
             let params: TokenStream2 = match params {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
@@ -26,7 +31,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node_var.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +39,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node_var.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node_var: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene_var: NodeScene = NodeScene::new(#node_var);
                     #(
-                        scene.append(#children);
+                        #scene_var.append(#children);
                     )*
-                    scene
+                    #scene_var
                 }
             }
         }
-- 
2.43.0

