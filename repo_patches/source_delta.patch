From cd1b0f0eb15baae3590dd8a2f8fc6f36ac812e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 1/9] fix: BTreeSet::is_subset holds for equal sets

---
 src/btree/btree_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 8676567..505f7b2 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -125,7 +125,7 @@ impl<T, const N: usize> BTreeSet<T, N> {
         T: Ord,
     {
         self.is_empty()
-            || (self.len() < other.len()
+            || (self.len() <= other.len()
                 && self.difference(other).next().is_none())
     }
 
-- 
2.43.0


From 83819077c014d2386ab5f11cfe78601562107372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 2/9] fix: reverse iteration over the fixed-node BTreeMap

---
 src/btree/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 30a6f5a..5a272c4 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1169,7 +1169,7 @@ where
                 Err(arc) => Some(Descend(Leased(arc))),
             }
         } else if self.next_elem_x < self.end_elems {
-            self.next_elem_x -= 1;
+            self.end_elems -= 1;
             let kv = match &mut self.n {
                 Owned(n) => unsafe {
                     let k = n.elems.keys[self.end_elems].assume_init_read();
@@ -1285,7 +1285,7 @@ impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
     fn next_back(&mut self) -> Option<Self::Item> {
         use IterAction::*;
         while let Some(w) = self.work.back_mut() {
-            match w.next() {
+            match w.next_back() {
                 Some(Return(kv)) => {
                     self.len -= 1;
                     return Some(kv);
-- 
2.43.0


From 10f1d5bd7eada9c4863d000c55a361ce2a1b875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 3/9] fix: AvlMap::retain visits entries in ascending key order

---
 src/avl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index e0b793a..19582a6 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -705,11 +705,12 @@ where
     };
 
     let (left, left_len) = retain(root.left.clone(), f);
+    let mut v = root.val.clone();
+    let keep = f(&root.key, &mut v); // visit in ascending key order
     let (right, right_len) = retain(root.right.clone(), f);
     let len = left_len + right_len;
-    let mut v = root.val.clone();
 
-    if f(&root.key, &mut v) {
+    if keep {
         (join(left, root.key.clone(), v, right), len + 1)
     } else {
         (join2(left, None, right), len)
-- 
2.43.0


From 0df3e080339b91d9f1c6f04aac65dcdf5548643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 4/9] fix: exact-size iterators report their length through
 size_hint

---
 src/avl.rs             | 48 +++++++++++++++++++++++++++++++++++++++++-
 src/avl/avl_set.rs     | 10 +++++++++
 src/btree.rs           | 15 +++++++++++++
 src/btree/btree_set.rs | 10 +++++++++
 src/btree/core.rs      |  5 +++++
 5 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/src/avl.rs b/src/avl.rs
index 19582a6..47face9 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1694,7 +1694,9 @@ impl<K, V> AvlMap<K, V> {
             }
         }
 
-        InnerIter::<IterMutNode<'_, K, V>> { work, len }
+        RangeMut {
+            iter: InnerIter { work, len },
+        }
     }
 
     /// Removes the entry for the given key and returns the unmapped value.
@@ -1962,6 +1964,11 @@ impl<Node: IterNode> Iterator for InnerIter<Node> {
             }
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<Node: IterNode> DoubleEndedIterator for InnerIter<Node> {
@@ -2027,6 +2034,11 @@ impl<'a, K, V> Iterator for Iter<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
@@ -2073,6 +2085,11 @@ impl<'a, K: Clone, V: Clone> Iterator for IterMut<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, K: Clone, V: Clone> DoubleEndedIterator for IterMut<'a, K, V> {
@@ -2113,6 +2130,30 @@ impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> {
 
 impl<'a, K, V> FusedIterator for Range<'a, K, V> {}
 
+struct RangeMut<'a, K: Clone, V: Clone> {
+    iter: InnerIter<IterMutNode<'a, K, V>>,
+}
+
+impl<'a, K: Clone, V: Clone> Iterator for RangeMut<'a, K, V> {
+    type Item = (&'a K, &'a mut V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.iter.next()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (0, Some(self.iter.len()))
+    }
+}
+
+impl<'a, K: Clone, V: Clone> DoubleEndedIterator for RangeMut<'a, K, V> {
+    fn next_back(&mut self) -> Option<Self::Item> {
+        self.iter.next_back()
+    }
+}
+
+impl<'a, K: Clone, V: Clone> FusedIterator for RangeMut<'a, K, V> {}
+
 trait IntoItem<K, V> {
     type Item;
 
@@ -2218,6 +2259,11 @@ impl<K: Clone, V: Clone> Iterator for IntoIter<K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<K: Clone, V: Clone> DoubleEndedIterator for IntoIter<K, V> {
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 888aff1..8fd5efc 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -448,6 +448,11 @@ impl<'a, T> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 crate::make_set_op_iter!(Difference, Iter<'a, T>, 0b100);
@@ -473,6 +478,11 @@ impl<T: Clone> Iterator for IntoIter<T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<K: Clone + Ord> std::ops::BitAnd for &AvlSet<K> {
diff --git a/src/btree.rs b/src/btree.rs
index 982216e..e1dbd70 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -1422,6 +1422,11 @@ impl<'a, K, V, const N: usize> Iterator for Iter<'a, K, V, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for Iter<'a, K, V, N> {
@@ -1490,6 +1495,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref mut v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for IterMut<'a, K, V, N>
@@ -1752,6 +1762,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<K, V, const N: usize> DoubleEndedIterator for IntoIter<K, V, N>
diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 505f7b2..a5a3eed 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -373,6 +373,11 @@ impl<'a, T, const N: usize> Iterator for Iter<'a, T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T, const N: usize> DoubleEndedIterator for Iter<'a, T, N> {
@@ -407,6 +412,11 @@ impl<T: Clone, const N: usize> Iterator for IntoIter<T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T: Clone, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
diff --git a/src/btree/core.rs b/src/btree/core.rs
index 5a272c4..eeae634 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1279,6 +1279,11 @@ impl<E, N, NI: NodeIterator<E, N>> Iterator for InnerIter<E, N, NI> {
 
         None
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
-- 
2.43.0


From f87b00e75336064e26bf76b1169ebbddc2b07c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 5/9] fix: inline vectors derive slices from the whole array,
 not one element

---
 src/btree/core.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index eeae634..ad3df49 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -114,7 +114,7 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     // get the keys as a slice
     fn keys(&self) -> &[K] {
         unsafe {
-            let keys: *const K = self.keys[0].assume_init_ref();
+            let keys = self.keys.as_ptr().cast::<K>();
             std::slice::from_raw_parts(keys, self.len as usize)
         }
     }
@@ -122,7 +122,7 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     // get the keys as a mutable slice
     fn keys_mut(&mut self) -> &mut [K] {
         unsafe {
-            let keys: *mut K = self.keys[0].assume_init_mut();
+            let keys = self.keys.as_mut_ptr().cast::<K>();
             std::slice::from_raw_parts_mut(keys, self.len as usize)
         }
     }
@@ -131,11 +131,11 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     fn elems_mut(&mut self) -> (&mut [K], &mut [V]) {
         (
             unsafe {
-                let keys: *mut K = self.keys[0].assume_init_mut();
+                let keys = self.keys.as_mut_ptr().cast::<K>();
                 std::slice::from_raw_parts_mut(keys, self.len as usize)
             },
             unsafe {
-                let vals: *mut V = self.vals[0].assume_init_mut();
+                let vals = self.vals.as_mut_ptr().cast::<V>();
                 std::slice::from_raw_parts_mut(vals, self.len as usize)
             },
         )
@@ -190,14 +190,14 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
 
     fn vals(&self) -> &[V] {
         unsafe {
-            let vals: *const V = self.vals[0].assume_init_ref();
+            let vals = self.vals.as_ptr().cast::<V>();
             std::slice::from_raw_parts(vals, self.len as usize)
         }
     }
 
     fn vals_mut(&mut self) -> &mut [V] {
         unsafe {
-            let vals: *mut V = self.vals[0].assume_init_mut();
+            let vals = self.vals.as_mut_ptr().cast::<V>();
             std::slice::from_raw_parts_mut(vals, self.len as usize)
         }
     }
@@ -609,12 +609,12 @@ impl<K, V> Node<K, V> {
         let rhs_len = rhs_n.elems.len();
 
         unsafe {
-            let lhs_keys = lhs_mut.elems.keys_mut().as_mut_ptr();
-            let rhs_keys = rhs_n.elems.keys_mut().as_mut_ptr();
+            let lhs_keys = lhs_mut.elems.keys.as_mut_ptr();
+            let rhs_keys = rhs_n.elems.keys.as_mut_ptr();
             copy(rhs_keys, lhs_keys.add(lhs_len), rhs_len);
 
-            let lhs_vals = lhs_mut.elems.vals_mut().as_mut_ptr();
-            let rhs_vals = rhs_n.elems.vals_mut().as_mut_ptr();
+            let lhs_vals = lhs_mut.elems.vals.as_mut_ptr();
+            let rhs_vals = rhs_n.elems.vals.as_mut_ptr();
             copy(rhs_vals, lhs_vals.add(lhs_len), rhs_len);
 
             lhs_mut.elems.len += rhs_len as InlineVecLen;
-- 
2.43.0


From 94565b689b9e925ebdd0f0c070367d1f3a490473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 6/9] fix: a panicking element drop no longer causes double
 drops in fixed nodes

---
 src/btree/core.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index ad3df49..21069c4 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -87,13 +87,14 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     }
 
     fn clear(&mut self) {
-        for i in 0..self.len {
+        // if a drop panics, leak the remaining elements rather than drop twice
+        let len = replace(&mut self.len, 0);
+        for i in 0..len {
             unsafe {
                 self.keys[i as usize].assume_init_drop();
                 self.vals[i as usize].assume_init_drop();
             }
         }
-        self.len = 0;
     }
 
     fn insert(&mut self, idx: usize, kv: (K, V)) {
@@ -1218,21 +1219,27 @@ impl<K, V> Drop for NodeIntoIter<K, V> {
         // if we don't own the node, we don't need to clean it up
         let OwnedOrLeased::Owned(n) = &mut self.n else { return; };
 
+        // Disown everything before dropping any of it: if a drop panics, we
+        // leak the rest rather than drop it twice.
+        n.elems.len = 0;
+        let mut kids = n.kids.take();
+        if let Some(kids) = kids.as_mut() {
+            kids.len = 0;
+        }
+
         for i in self.next_elem_x..self.end_elems {
             unsafe {
                 n.elems.keys[i].assume_init_drop();
                 n.elems.vals[i].assume_init_drop();
             }
         }
-        n.elems.len = 0;
 
-        let Some(mut kids) = n.kids.take() else { return; };
+        let Some(mut kids) = kids else { return; };
         for i in self.next_kid_x..self.end_kids {
             unsafe {
                 kids.keys[i].assume_init_drop();
             }
         }
-        kids.len = 0;
     }
 }
 
-- 
2.43.0


From fcd627ce46316f88e38f7b1b1f97ef7ff5bb26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 7/9] fix: merging fixed nodes stays well-formed if cloning a
 shared node panics

---
 src/btree/core.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 21069c4..9b392f5 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -593,11 +593,10 @@ impl<K, V> Node<K, V> {
         let kids = self.kids.as_mut().unwrap();
 
         // we destruct the rhs, moving its pieces to the lhs
-        let rhs_rc = kids.remove(at + 1).0;
-        let mut rhs_n = match Arc::try_unwrap(rhs_rc) {
-            Ok(n) => n,
-            Err(rc) => (*rc).clone(),
-        };
+        // (if it is shared, clone it before removing it; clone may panic)
+        let rhs_rc = &mut kids.keys_mut()[at + 1];
+        let mut rhs_n = replace(Arc::make_mut(rhs_rc), Node::new());
+        kids.remove(at + 1);
 
         let mid_kv = self.elems.remove(at);
 
-- 
2.43.0


From a84c11bc1480f1081b159d4e44c9397dccfeec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 8/9] fix: deserialization with a size hint of usize::MAX does
 not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84fc0eb..bdc16c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,7 @@ mod serde {
 
                     Ok(MAP::make_half(scratch))
                 } else {
-                    let lf_len = (len + 1) / 2; // left gets big half for mid pt
+                    let lf_len = len - len / 2; // left gets big half for mid pt
                     let rt_len = len - lf_len;
                     let lhs =
                         build_map_by_halves::<MAP, M>(access, lf_len, scratch)?;
-- 
2.43.0


From 52a7396589726ab2482b506799d96dc7042da467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 9/9] fix: a panicking clone no longer leaves a B-tree node
 underpopulated

Removing from a B-tree used to clone a shared sibling for rebalancing after
the element had been taken out.  If that clone panicked, the removed element
stayed counted and the node stayed underpopulated: for a minimum occupancy of
one it was empty, so that later iteration or lookups of the first and last
entries panicked.
---
 src/btree.rs | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/btree.rs b/src/btree.rs
index e1dbd70..d676eb2 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -424,6 +424,21 @@ impl<K, V, const N: usize> Node<K, V, N> {
         rhs_ref.kids.extend(lhs_n.kids);
     }
 
+    // Prepares for removing an element from the subtree self.kids[at].  If the
+    // removal may leave the child underpopulated, get a private copy of the
+    // sibling that it will be rebalanced with up front; if cloning the sibling
+    // panics, then the tree has not been changed yet and is still well-formed.
+    fn prep_rebal(&mut self, at: usize)
+    where
+        K: Clone,
+        V: Clone,
+    {
+        if self.kids[at].len() <= Self::MIN_OCCUPANCY {
+            let sibling = if at > 0 { at - 1 } else { at + 1 };
+            Arc::make_mut(&mut self.kids[sibling]);
+        }
+    }
+
     // rebalances when the self.elems[at] is underpopulated
     fn rebal(&mut self, at: usize) -> IsUnderPop
     where
@@ -453,10 +468,11 @@ impl<K, V, const N: usize> Node<K, V, N> {
         K: Clone,
         V: Clone,
     {
-        if let Some(rt) = self.child_mut(0) {
-            // self is a branch; recurse to the rightmost child
-            let rt = Arc::make_mut(rt);
-            let ret = rt.pop_first();
+        if self.is_branch() {
+            // recurse to the leftmost child
+            self.prep_rebal(0);
+            let lf = Arc::make_mut(&mut self.kids[0]);
+            let ret = lf.pop_first();
             if let Some((kv, IsUnderPop(true))) = ret {
                 Some((kv, self.rebal(0)))
             } else {
@@ -474,9 +490,11 @@ impl<K, V, const N: usize> Node<K, V, N> {
         K: Clone,
         V: Clone,
     {
-        if let Some(rt) = self.kids.last_mut() {
-            // self is a branch; recurse to the rightmost child
-            let rt = Arc::make_mut(rt);
+        if self.is_branch() {
+            // recurse to the rightmost child
+            let last = self.kids.len() - 1;
+            self.prep_rebal(last);
+            let rt = Arc::make_mut(&mut self.kids[last]);
             let ret = rt.pop_last();
             if let Some((kv, IsUnderPop(true))) = ret {
                 Some((kv, self.rebal(self.elems.len())))
@@ -499,8 +517,9 @@ impl<K, V, const N: usize> Node<K, V, N> {
         for i in 0..(self.elems.len()) {
             match key.cmp(self.key(i).borrow()) {
                 Less => {
-                    let lt_k = self.child_mut(i)?;
-                    let lt_k = Arc::make_mut(lt_k);
+                    self.child(i)?;
+                    self.prep_rebal(i);
+                    let lt_k = Arc::make_mut(&mut self.kids[i]);
                     let (kv, IsUnderPop(is_under_pop)) = lt_k.remove(key)?;
                     return Some((
                         kv,
@@ -517,8 +536,8 @@ impl<K, V, const N: usize> Node<K, V, N> {
                         ));
                     }
 
-                    let lt_k = self.child_mut(i).unwrap();
-                    let lt_k = Arc::make_mut(lt_k);
+                    self.prep_rebal(i);
+                    let lt_k = Arc::make_mut(&mut self.kids[i]);
                     let (kv, is_under_pop) = lt_k.pop_last().unwrap();
                     let old_kv = replace(&mut self.elems[i], kv);
                     if is_under_pop.0 {
@@ -533,8 +552,9 @@ impl<K, V, const N: usize> Node<K, V, N> {
         }
 
         // greater than all in this node; try descending rightmost child
-        let gt_k = self.kids.last_mut()?;
-        let gt_k = Arc::make_mut(gt_k);
+        let last = self.kids.len().checked_sub(1)?;
+        self.prep_rebal(last);
+        let gt_k = Arc::make_mut(&mut self.kids[last]);
         let (kv, IsUnderPop(is_under_pop)) = gt_k.remove(key)?;
         Some((
             kv,
-- 
2.43.0

