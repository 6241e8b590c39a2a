From a2dc76dd253c240e85eec4939f9de628bfe96892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 01/15] fix: scan_prefix repeated the end of the prefix in keys
 if a node ends exactly there

---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..376cfc3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator appends the prefix of the tree itself
+                let matching = tree.load_prefix(&store)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - matching]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From a323b560d12ad5bc434ea42ca8e40e9d10a2634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 02/15] fix: an empty value was considered equal to no value
 when comparing trees

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 376cfc3..41ac0a0 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -669,6 +669,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From 25ed23821d5c3e036b8704bafa69c27238baa384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 03/15] fix: leak of the child list of a node that becomes
 empty

---
 src/node/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 41ac0a0..cad25dc 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -913,8 +913,7 @@ impl<S: BlobStore> TreeNode<S> {
         }
         if !self.has_value() && self.child_count() == 0 {
             self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+            self.set_children_arc_opt(None);
         }
     }
 
-- 
2.43.0


From 063beedef72a1b456c0ae35ae5d9b015864c5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 04/15] fix: a node that lost its last child differed from a
 node that never had one

---
 src/node/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index cad25dc..2968662 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -911,9 +911,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
+        if self.child_count() == 0 {
+            // no children, never an empty child list
             self.set_children_arc_opt(None);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
     }
 
-- 
2.43.0


From 4b48d078f311b45cbf6f119784c9dce86e41a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 05/15] fix: has_prefix and filter_prefix for the empty prefix
 of an empty tree

---
 src/node/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 2968662..6979e03 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -819,7 +819,8 @@ impl<S: BlobStore> TreeNode<S> {
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                // only the root can be empty
+                FindResult::Found(_) => !self.is_empty(),
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
@@ -1498,7 +1499,10 @@ fn filter_prefix<S: BlobStore>(
         Ok(match x {
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
-                res.set_prefix_slice(substitution);
+                // the empty tree stays the empty tree
+                if !res.is_empty() {
+                    res.set_prefix_slice(substitution);
+                }
                 res
             }
             FindResult::Prefix { tree, matching } => {
-- 
2.43.0


From 9761f09e46640e899083b89f85037975b8b6ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 06/15] fix: retain_prefix_with dropped entries below a longer
 accepted prefix if a shorter one was rejected

---
 src/node/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 6979e03..75d534a 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2803,14 +2803,12 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
+            // there might still be longer prefixes that are accepted by the predicate
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From 7e1c9951a7be33bac31456c37865e28933ebbf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 07/15] fix: in-place operations on attached trees panicked on,
 or mixed up, prefixes and children that were not loaded

---
 src/node/mod.rs | 71 +++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 75d534a..14cde77 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -892,18 +892,17 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
-        let cc = self.child_count();
-        if !self.has_value() && cc == 1 {
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
+        if self.children_hdr.is_id() && !self.children_hdr.is_none() {
+            // the children were never loaded, so nothing below this node has changed
+            return Ok(());
+        }
+        if !self.has_value() && self.child_count() == 1 {
+            // combine the prefix again. Both parts might still be in the store.
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
-            let children = Arc::make_mut(children);
-            let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
-            // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
+            prefix.extend_from_slice(&children[0].load_prefix(store)?);
+            let mut child = Arc::make_mut(children).pop().unwrap();
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -919,6 +918,7 @@ impl<S: BlobStore> TreeNode<S> {
                 self.set_prefix_owned(OwnedBlobRef::EMPTY);
             }
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2082,7 +2082,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2162,13 +2162,13 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        outer_combine_children_with(ac, ab, bc, bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is value of a
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        outer_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.split(&ab, n)?;
@@ -2176,8 +2176,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2288,7 +2287,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2430,27 +2429,26 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is none
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        inner_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of b
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2554,7 +2552,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2709,23 +2707,22 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        left_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of a
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2799,7 +2796,7 @@ where
             a.set_value_slice(None);
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2808,21 +2805,20 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        retain_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nuke it
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2900,7 +2896,7 @@ where
             // recurse
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2913,18 +2909,17 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        remove_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
-- 
2.43.0


From 8c6b13c6c1d07ac4fb72b4492e663bff6c398056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 08/15] fix: combining attached trees panicked on values,
 shortened nodes and children that are in the store

---
 src/node/mod.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 14cde77..dc490c3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,20 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
-        if !self.is_id() {
-            Ok(unsafe { std::mem::transmute(self.to_owned()) })
-        } else {
-            todo!()
+        match self.read() {
+            Ok(_) => Ok(unsafe { std::mem::transmute(self.to_owned()) }),
+            Err(id) => {
+                let data = store.read(id)?;
+                Ok(Value {
+                    hdr: Header::data(data.len()),
+                    data: CompactOwnedBlob::copy_from_slice(&data),
+                    p: PhantomData,
+                })
+            }
         }
     }
 
@@ -1427,7 +1433,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1863,16 +1869,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
         if self.is_empty() {
             None
         } else {
-            todo!()
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.to_owned());
+            }
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        Ok(if self.is_empty() {
+            None
+        } else {
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.detached(store)?);
+            }
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From c43b1fcd685569e34cb86acc0a65a3ac014226f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:16 +0000
Subject: [PATCH 09/15] fix: a crash between closing a page and writing the
 next block left a last id that can not be read

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..334f894 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -175,8 +175,8 @@ impl Inner {
     fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
         // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
         let start = offset_of_page(current_page, self.page_size);
+        // no commit here: until the next block is written, the last id is that of the last block
         self.pad_to(start + (self.page_size as u64))?;
-        self.commit()?;
         self.load_page(current_page)?;
         self.recent
             .retain(|offset, _| page(*offset, self.page_size) != current_page);
-- 
2.43.0


From 057702aa91d9ee384e8a94885f55ce83ee94d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:16 +0000
Subject: [PATCH 10/15] fix: sync of the paged file store did not sync the file

---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 334f894..77708d0 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -284,6 +284,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From 8a7c83ed3416ac7ae4bf9616f718f8d879a87667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 11/15] fix: a page size of 0 was accepted, but nothing can be
 written then

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 77708d0..34e824f 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -120,7 +120,7 @@ fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
 
 impl Inner {
     pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
-        anyhow::ensure!((page_size as usize) % ALIGN == 0);
+        anyhow::ensure!(page_size > 0 && (page_size as usize) % ALIGN == 0);
         let end = file.seek(std::io::SeekFrom::End(0))?;
         if end == 0 {
             // write header
-- 
2.43.0


From 77cf7c8ca8114c6c5a2acdc0afe89011050bcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 12/15] fix: reading an id that was never given out from the
 paged file store panicked

---
 src/store/paged_file_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 34e824f..fab252f 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,7 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(offset > 0 && offset <= self.last_id, "no such block");
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,6 +275,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(id.len() == 8);
         let offset = u64::from_be_bytes(id.try_into().unwrap());
         self.0.lock().bytes(offset)
     }
-- 
2.43.0


From 5ba5fb34d2c6aaa8bf5a1f875a56b60d03ff8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 13/15] fix: malformed blocks caused panics or were silently
 cut short

---
 src/node/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index dc490c3..84bf6f2 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -768,6 +768,7 @@ impl<S: BlobStore> TreeNode<S> {
     fn deserialize(data: &[u8]) -> anyhow::Result<Self> {
         if let Some((node, rest)) = BorrowedTreeNode::<S>::read_one(data) {
             anyhow::ensure!(rest.is_empty());
+            anyhow::ensure!(node.is_valid(), "Invalid node {}!", Hex::new(data));
             Ok(node.to_owned())
         } else {
             anyhow::bail!("Unable to deserialize {}!", Hex::new(data));
@@ -1262,6 +1263,11 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
         BorrowedBlobRef::new(self.children_hdr, self.children)
     }
 
+    /// Check the constraints for headers. An id prefix must have a first byte, and children are always stored as id.
+    fn is_valid(&self) -> bool {
+        !self.prefix_hdr.is_none() && self.children_hdr.is_id()
+    }
+
     fn bytes_len(&self) -> usize {
         self.prefix_hdr.len() + self.value_hdr.len() + self.children_hdr.len() + 3
     }
@@ -1859,6 +1865,7 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
             None
         } else {
             let (record_size, data) = (id[0], store.read(&id[1..])?);
+            Self::validate(&data)?;
             Some(Self {
                 data,
                 offset: 0,
@@ -1868,6 +1875,19 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
         })
     }
 
+    /// Check that the data is a non-empty sequence of nodes, so there is no need to check when iterating
+    fn validate(data: &[u8]) -> anyhow::Result<()> {
+        anyhow::ensure!(!data.is_empty(), "No children!");
+        let mut rest = data;
+        while !rest.is_empty() {
+            rest = match BorrowedTreeNode::<S>::read_one(rest) {
+                Some((node, rest)) if node.is_valid() => rest,
+                _ => anyhow::bail!("Invalid children!"),
+            };
+        }
+        Ok(())
+    }
+
     #[allow(clippy::wrong_self_convention)]
     fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
         if self.is_empty() {
-- 
2.43.0


From 499578439bb91d73ac546c48993b89e0c94d5ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 14/15] fix: in-place operations on attached trees lost data if
 the store failed

---
 src/node/mod.rs | 103 ++++++++++++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 38 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 84bf6f2..d67fa46 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -3517,6 +3517,23 @@ impl<K: AsRef<[u8]>, V: AsRef<[u8]>> FromIterator<(K, V)> for RadixTree {
 }
 
 impl<S: BlobStore + Clone> RadixTree<S> {
+    /// Change the root node in place.
+    ///
+    /// With a store that can fail the change is made to a copy, so an error leaves the tree as it was.
+    fn update(
+        &mut self,
+        f: impl FnOnce(&mut TreeNode<S>, S) -> Result<(), S::Error>,
+    ) -> Result<(), S::Error> {
+        if is_no_store::<S>() {
+            f(&mut self.node, self.store.clone())
+        } else {
+            let mut node = self.node.clone();
+            f(&mut node, self.store.clone())?;
+            self.node = node;
+            Ok(())
+        }
+    }
+
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
     fn try_dump(&self) -> Result<(), S::Error> {
         self.node.dump(0, &self.store)
@@ -3655,14 +3672,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        outer_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        self.update(|node, store| {
+            outer_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3697,14 +3716,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        inner_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        self.update(|node, store| {
+            inner_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3771,14 +3792,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        left_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        self.update(|node, store| {
+            left_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3788,13 +3811,15 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        retain_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        self.update(|node, store| {
+            retain_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3804,13 +3829,15 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        remove_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        self.update(|node, store| {
+            remove_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
-- 
2.43.0


From 6c45468ecbbdf096566f8745f1ac7b7bfb593978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 15/15] fix: Blob::slice accepted a start bound that overflows
 in release builds

An excluded start of usize::MAX wrapped around to 0 and returned the start
of the blob instead of refusing the range, as the end bound does.
---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0

