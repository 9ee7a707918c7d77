From d85f98a04536d4051bc6eacde997c8701062551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 01/16] sim hook: seeded hash order and small rope buffer under
 --cfg gbtree_sim

---
 src/generic_impl/gap_buffer.rs |  4 ++--
 src/lib.rs                     |  6 +++++
 src/sim.rs                     | 43 ++++++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+), 2 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/generic_impl/gap_buffer.rs b/src/generic_impl/gap_buffer.rs
index b9ce6f0..186b4d5 100644
--- a/src/generic_impl/gap_buffer.rs
+++ b/src/generic_impl/gap_buffer.rs
@@ -2,9 +2,9 @@ use std::ops::{Range, RangeBounds};
 
 use crate::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
 
-#[cfg(not(test))]
+#[cfg(not(any(test, gbtree_sim)))]
 pub const MAX_STRING_SIZE: usize = 128;
-#[cfg(test)]
+#[cfg(any(test, gbtree_sim))]
 pub const MAX_STRING_SIZE: usize = 12;
 
 #[derive(Debug, Clone)]
diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..18437eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,11 +1,13 @@
 #![doc = include_str!("../README.md")]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)] // `gbtree_sim`, see sim.rs
 
 use core::{fmt::Debug, ops::Range};
 use std::collections::{BTreeSet, VecDeque};
 use std::ops::AddAssign;
 use std::{cmp::Ordering, mem::take, ops::RangeBounds};
 
+#[cfg(not(gbtree_sim))]
 use fxhash::{FxHashMap, FxHashSet};
 pub(crate) use heapless::Vec as HeaplessVec;
 use itertools::Itertools;
@@ -16,11 +18,15 @@ use thunderdome::Index as RawArenaIndex;
 pub use generic_impl::*;
 
 use crate::rle::{HasLength, Mergeable, Sliceable};
+#[cfg(gbtree_sim)]
+use crate::sim::{FxHashMap, FxHashSet};
 
 mod generic_impl;
 pub mod iter;
 
 pub mod rle;
+#[cfg(gbtree_sim)]
+pub mod sim;
 
 pub type HeapVec<T> = Vec<T>;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..4a4915b
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,43 @@
+//! Simulation seam, compiled only with `--cfg gbtree_sim`.
+//!
+//! The tree uses hash maps internally, so the order in which it visits dirty
+//! nodes and pending insertions depends on the hash function. Under simulation
+//! that order is decided by the simulator: the hasher below is seeded by
+//! [`set_hash_seed`] (per thread), and is otherwise deterministic.
+
+use std::cell::Cell;
+use std::collections::{HashMap, HashSet};
+use std::hash::{BuildHasherDefault, Hasher};
+
+thread_local! {
+    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
+}
+
+/// Choose the iteration order of the tree's internal hash maps on this thread.
+pub fn set_hash_seed(seed: u64) {
+    HASH_SEED.with(|s| s.set(seed));
+}
+
+pub struct SeededHasher(u64);
+
+impl Default for SeededHasher {
+    fn default() -> Self {
+        Self(HASH_SEED.with(|s| s.get()) ^ 0x9E37_79B9_7F4A_7C15)
+    }
+}
+
+impl Hasher for SeededHasher {
+    fn finish(&self) -> u64 {
+        self.0
+    }
+
+    fn write(&mut self, bytes: &[u8]) {
+        for &b in bytes {
+            self.0 = (self.0 ^ b as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9);
+            self.0 ^= self.0 >> 29;
+        }
+    }
+}
+
+pub(crate) type FxHashMap<K, V> = HashMap<K, V, BuildHasherDefault<SeededHasher>>;
+pub(crate) type FxHashSet<K> = HashSet<K, BuildHasherDefault<SeededHasher>>;
-- 
2.43.0


From 907d5c5bba6cb26bf79c1b3aaa11926644ffc1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 02/16] fix: OrdTreeMap::delete of an absent key must not
 remove its neighbour

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..7d3f04e 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From 5a0424a8f965b0bbd82b29f61a112af9abe7b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 03/16] fix: dropping a drain over nothing must not panic

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..980daca 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        let Some(store) = self.store.take() else {
+            // nothing was in the range
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From 6ba35ada123c3d857a5c789c08c8c73f0747d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 04/16] fix: prepend into an empty tree must update the root
 cache

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 18437eb..30bfabe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2532,6 +2532,7 @@ impl<B: BTreeTrait> BTree<B> {
             let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
             let ans = data.arena;
             parent.children.push(data).unwrap();
+            self.update_root_cache();
             return Cursor {
                 leaf: ans.unwrap().into(),
                 offset: 0,
-- 
2.43.0


From 35d3e4282f49052833bdcdbf1b3ccaa0d2ec518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 05/16] fix: bulk insertion into an empty tree must not index
 past its nodes' children

---
 src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30bfabe..22249bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -722,6 +722,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -759,8 +760,10 @@ impl<B: BTreeTrait> BTree<B> {
     /// Returns (newly created subtree's root, height)
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
-        let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        // a node must have room for one more child at rest
+        let max_child_size = MAX_CHILDREN_NUM - 2;
+        let mut nodes = Vec::with_capacity(data.len() / max_child_size + 1);
+        for elem in data.into_iter().chunks(max_child_size).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -769,7 +772,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -786,13 +789,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
-            let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            let mut new_nodes = Vec::with_capacity(nodes.len() / max_child_size + 1);
+            for chunk in nodes.into_iter().chunks(max_child_size).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -806,10 +809,13 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
-                        arena: ArenaIndex::Internal(child_idx),
-                        cache,
-                    };
+                    parent
+                        .children
+                        .push(Child {
+                            arena: ArenaIndex::Internal(child_idx),
+                            cache,
+                        })
+                        .unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From bc91c235e7327728390dd94f5cf2a7b4dd280bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 06/16] fix: bulk insertion must merge into the element before
 the cursor, not the one before that

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22249bc..9f3ea54 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,9 @@ impl<B: BTreeTrait> BTree<B> {
             .iter()
             .position(|x| x.arena.unwrap() == pos.leaf.0)
             .unwrap();
-        let left_neighbour = if leaf_slot == 0 {
+        let left_neighbour = if pos.offset != 0 {
+            Some(pos.leaf)
+        } else if leaf_slot == 0 {
             None
         } else {
             Some(parent.children[leaf_slot - 1].arena.unwrap().into())
@@ -747,7 +749,11 @@ impl<B: BTreeTrait> BTree<B> {
             inserted = i;
         }
 
-        let mut pos = new_pos.unwrap_or(cursor);
+        let mut pos = new_pos.unwrap_or_else(|| Cursor {
+            leaf: cursor.leaf,
+            // elements may just have been merged into it
+            offset: self.get_leaf(cursor.leaf.into()).elem.rle_len(),
+        });
         // TODO: PERF this can be optimized further
         for item in data.drain(inserted..).rev() {
             let (p, _) = self.insert_by_path(pos, item);
-- 
2.43.0


From b1eb8029381f31e8ef548af095a3fb46831c7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 07/16] fix: merging adjacent elements of a bulk insertion must
 keep their order

---
 src/lib.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9f3ea54..e6e6886 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2752,28 +2752,13 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    data.dedup_by(|right, left| {
+        let merge = left.can_merge(right);
+        if merge {
+            left.merge_right(right);
         }
-        i += 1;
-    }
-
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+        merge
+    });
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From 7b97d802d51498675b243b59779d66f7687168a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 08/16] fix: clearing a rope must forget the remembered cursor

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..ccc91bd 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -241,6 +241,7 @@ impl Rope {
 
     pub fn clear(&mut self) {
         self.tree.clear();
+        self.cursor = None;
     }
 
     #[allow(unused)]
-- 
2.43.0


From 0cb76f42bc50639b967bbbb8ff6e0cc245351eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 09/16] fix: shift_path_by_one_offset must keep its offset
 across a node boundary

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e6e6886..0d9e23d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -854,7 +854,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From aa5fac3f8bd8d228518bccec206cb5f9c298615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 10/16] fix: iter_range(..) of an empty tree must yield nothing
 instead of panicking

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d9e23d..135d4e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1738,16 +1738,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        // the tree is empty if there is no start or no end
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From 0cd7249b5f55f9dc3393ea4794ec78467659c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 11/16] fix: a drain that ends at a zero-length element must
 repair that element's summaries

---
 src/iter.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 980daca..3e760fc 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,7 +1,4 @@
-use crate::{
-    delete_range, rle::HasLength, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
-    QueryResult,
-};
+use crate::{delete_range, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath, QueryResult};
 
 /// iterate node (not element) from the start path to the **inclusive** end path
 pub(super) struct Iter<'a, B: BTreeTrait> {
@@ -58,17 +55,8 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
             }
         };
         let leaf_after_drain_range = {
-            let node_idx = end_path.last().unwrap().arena;
-            if let Some(end) = end_result {
-                let len = tree.leaf_nodes.get(end.leaf.0).unwrap().elem.rle_len();
-                if len == end.offset {
-                    tree.next_same_level_in_node(node_idx)
-                } else {
-                    Some(node_idx)
-                }
-            } else {
-                None
-            }
+            // the end is always at the start of its leaf, which may be zero-length
+            end_result.map(|_| end_path.last().unwrap().arena)
         };
         Self {
             current_path: tree.get_path(start_result.leaf.into()),
-- 
2.43.0


From e9002df4c86d7bb7ee4cd8af154e3cb34acc1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 12/16] fix: an empty sub-range passed to
 update_leaves_with_arg_in_ranges must touch nothing

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 135d4e3..950d582 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1442,6 +1442,10 @@ impl<B: BTreeTrait> BTree<B> {
             if split_at.is_empty() {
                 // doesn't need to split
                 for (_, range, a) in group.iter() {
+                    if range.is_empty() && len > 0 {
+                        continue;
+                    }
+
                     assert_eq!(range.start, 0);
                     assert_eq!(range.end, len);
                     f(&mut leaf_node.elem, a);
@@ -1454,7 +1458,7 @@ impl<B: BTreeTrait> BTree<B> {
                 // handle first element
                 let mut elem = leaf_node.elem.split(first_split);
                 for (_, r, a) in group.iter() {
-                    if r.start == 0 {
+                    if r.start == 0 && !r.is_empty() {
                         f(&mut leaf_node.elem, a);
                     }
                 }
@@ -1477,7 +1481,7 @@ impl<B: BTreeTrait> BTree<B> {
 
                 // handle the last element
                 for (_, r, a) in group.iter() {
-                    if r.end == len {
+                    if r.end == len && !r.is_empty() {
                         f(&mut elem, a);
                     }
                 }
-- 
2.43.0


From 1846689bf568000908e3def31aa65564c8aa7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 13/16] fix: Rope::delete_range must clamp a bound at
 usize::MAX instead of overflowing

---
 src/generic_impl/rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index ccc91bd..f3b4c2b 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -125,11 +125,11 @@ impl Rope {
 
         let start = match range.start_bound() {
             core::ops::Bound::Included(x) => *x,
-            core::ops::Bound::Excluded(x) => *x + 1,
+            core::ops::Bound::Excluded(x) => x.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&x) => x + 1,
+            core::ops::Bound::Included(&x) => x.saturating_add(1),
             core::ops::Bound::Excluded(&x) => x,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 65c3d103a9ad9bb99c50a91f4b5ad47a0d86d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 14/16] fix: a drain that starts at the first element must
 rebalance the path after it

---
 src/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index 3e760fc..164eea6 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -239,7 +239,10 @@ impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
             seal(self.tree, before);
         } else {
             self.tree.update_root_cache();
-            self.tree.try_reduce_levels();
+            match leaf_after_drain_range {
+                Some(after) => seal(self.tree, after),
+                None => self.tree.try_reduce_levels(),
+            }
         }
     }
 }
-- 
2.43.0


From ee6ea7e761bfc1339dd0fbf405627bec35e01bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 15/16] sim hook: count the rope's work under cfg(gbtree_sim)

---
 src/generic_impl/gap_buffer.rs |  4 ++++
 src/generic_impl/rope.rs       |  8 ++++++++
 src/sim.rs                     | 15 +++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/generic_impl/gap_buffer.rs b/src/generic_impl/gap_buffer.rs
index 186b4d5..9cdac09 100644
--- a/src/generic_impl/gap_buffer.rs
+++ b/src/generic_impl/gap_buffer.rs
@@ -124,10 +124,14 @@ impl GapBuffer {
 
     #[inline]
     pub fn len(&self) -> usize {
+        #[cfg(gbtree_sim)]
+        crate::sim::tick();
         self.buffer.len() - self.gap_len as usize
     }
 
     pub fn as_bytes(&self) -> (&[u8], &[u8]) {
+        #[cfg(gbtree_sim)]
+        crate::sim::tick();
         (
             &self.buffer[..self.gap_start as usize],
             &self.buffer[(self.gap_start + self.gap_len) as usize..],
diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index f3b4c2b..0f5b8f8 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -30,6 +30,8 @@ pub struct Rope {
 impl UseLengthFinder<RopeTrait> for RopeTrait {
     #[inline(always)]
     fn get_len(cache: &<Self as BTreeTrait>::Cache) -> usize {
+        #[cfg(gbtree_sim)]
+        crate::sim::tick();
         *cache as usize
     }
 }
@@ -281,6 +283,8 @@ impl BTreeTrait for RopeTrait {
 
     #[inline(always)]
     fn calc_cache_internal(cache: &mut Self::Cache, caches: &[crate::Child<Self>]) -> isize {
+        #[cfg(gbtree_sim)]
+        crate::sim::tick();
         let new_cache = caches.iter().map(|x| x.cache).sum::<isize>();
         let diff = new_cache - *cache;
         *cache = new_cache;
@@ -289,6 +293,8 @@ impl BTreeTrait for RopeTrait {
 
     #[inline(always)]
     fn apply_cache_diff(cache: &mut Self::Cache, diff: &Self::CacheDiff) {
+        #[cfg(gbtree_sim)]
+        crate::sim::tick();
         *cache += *diff;
     }
 
@@ -299,6 +305,8 @@ impl BTreeTrait for RopeTrait {
 
     #[inline(always)]
     fn get_elem_cache(elem: &Self::Elem) -> Self::Cache {
+        #[cfg(gbtree_sim)]
+        crate::sim::tick();
         elem.len() as isize
     }
 
diff --git a/src/sim.rs b/src/sim.rs
index 4a4915b..4f676a8 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -13,6 +13,21 @@ thread_local! {
     static HASH_SEED: Cell<u64> = const { Cell::new(0) };
 }
 
+thread_local! {
+    static WORK: Cell<u64> = const { Cell::new(0) };
+}
+
+/// Simulated time: the number of calls the tree has made on this thread into
+/// the crate's own text type, which the simulator cannot count from outside.
+pub fn work() -> u64 {
+    WORK.with(|w| w.get())
+}
+
+#[inline]
+pub(crate) fn tick() {
+    WORK.with(|w| w.set(w.get() + 1));
+}
+
 /// Choose the iteration order of the tree's internal hash maps on this thread.
 pub fn set_hash_seed(seed: u64) {
     HASH_SEED.with(|s| s.set(seed));
-- 
2.43.0


From bed962bda4249373349c8f1acdc31dff86e42be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 16/16] sim hook: count accesses to nodes and elements under
 cfg(gbtree_sim)

---
 src/lib.rs |   3 +-
 src/sim.rs | 112 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 114 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 950d582..6156ae0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,7 @@ use fxhash::{FxHashMap, FxHashSet};
 pub(crate) use heapless::Vec as HeaplessVec;
 use itertools::Itertools;
 use rle::{CanRemove, TryInsert};
+#[cfg(not(gbtree_sim))]
 use thunderdome::Arena;
 use thunderdome::Index as RawArenaIndex;
 
@@ -19,7 +20,7 @@ pub use generic_impl::*;
 
 use crate::rle::{HasLength, Mergeable, Sliceable};
 #[cfg(gbtree_sim)]
-use crate::sim::{FxHashMap, FxHashSet};
+use crate::sim::{Arena, FxHashMap, FxHashSet};
 
 mod generic_impl;
 pub mod iter;
diff --git a/src/sim.rs b/src/sim.rs
index 4f676a8..944b1ac 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -8,6 +8,8 @@
 use std::cell::Cell;
 use std::collections::{HashMap, HashSet};
 use std::hash::{BuildHasherDefault, Hasher};
+use std::ops::{Deref, DerefMut};
+use thunderdome::Index;
 
 thread_local! {
     static HASH_SEED: Cell<u64> = const { Cell::new(0) };
@@ -28,6 +30,116 @@ pub(crate) fn tick() {
     WORK.with(|w| w.set(w.get() + 1));
 }
 
+thread_local! {
+    static VISITS: Cell<u64> = const { Cell::new(0) };
+}
+
+/// The number of accesses to nodes and elements made on this thread.
+pub fn visits() -> u64 {
+    VISITS.with(|v| v.get())
+}
+
+#[inline]
+fn visit() {
+    VISITS.with(|v| v.set(v.get() + 1));
+}
+
+/// The arena of the nodes; accesses are counted, everything else is the arena's own.
+#[derive(Debug, Clone)]
+pub(crate) struct Arena<T>(thunderdome::Arena<T>);
+
+impl<T> Arena<T> {
+    pub const fn new() -> Self {
+        Self(thunderdome::Arena::new())
+    }
+
+    #[allow(unused)]
+    pub fn with_capacity(capacity: usize) -> Self {
+        Self(thunderdome::Arena::with_capacity(capacity))
+    }
+
+    #[inline]
+    pub fn get(&self, index: Index) -> Option<&T> {
+        visit();
+        self.0.get(index)
+    }
+
+    #[inline]
+    pub fn get_mut(&mut self, index: Index) -> Option<&mut T> {
+        visit();
+        self.0.get_mut(index)
+    }
+
+    #[inline]
+    pub fn get2_mut(&mut self, a: Index, b: Index) -> (Option<&mut T>, Option<&mut T>) {
+        visit();
+        visit();
+        self.0.get2_mut(a, b)
+    }
+
+    pub fn iter(&self) -> impl ExactSizeIterator<Item = (Index, &T)> + '_ {
+        self.0.iter().inspect(|_| visit())
+    }
+
+    #[allow(unused)]
+    pub fn iter_mut(&mut self) -> impl ExactSizeIterator<Item = (Index, &mut T)> + '_ {
+        self.0.iter_mut().inspect(|_| visit())
+    }
+}
+
+impl<T> Default for Arena<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<T> Deref for Arena<T> {
+    type Target = thunderdome::Arena<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for Arena<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+impl<T> IntoIterator for Arena<T> {
+    type Item = (Index, T);
+    type IntoIter = thunderdome::iter::IntoIter<T>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+impl<'a, T> IntoIterator for &'a Arena<T> {
+    type Item = (Index, &'a T);
+    type IntoIter = thunderdome::iter::Iter<'a, T>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        for _ in 0..self.0.len() {
+            visit();
+        }
+        self.0.iter()
+    }
+}
+
+impl<'a, T> IntoIterator for &'a mut Arena<T> {
+    type Item = (Index, &'a mut T);
+    type IntoIter = thunderdome::iter::IterMut<'a, T>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        for _ in 0..self.0.len() {
+            visit();
+        }
+        self.0.iter_mut()
+    }
+}
+
 /// Choose the iteration order of the tree's internal hash maps on this thread.
 pub fn set_hash_seed(seed: u64) {
     HASH_SEED.with(|s| s.set(seed));
-- 
2.43.0

