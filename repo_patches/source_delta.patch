From 751cfbb36cd5540164f9179a8b3fedccfccf6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 1/7] fix: merge a backlogged edit once when it's received
 again

Integrating an edit that was already in the backlog panicked, and
integrating it once it was ready left a stale copy in the backlog.
---
 src/backlog.rs | 80 +++++++++++++++++++++++++++++++++-----------------
 src/replica.rs |  4 +++
 2 files changed, 57 insertions(+), 27 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..3f72657 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -27,14 +27,11 @@ impl Backlog {
         }
     }
 
-    /// Inserts a new [`Deletion`] into the backlog.
+    /// Inserts a new [`Deletion`] into the backlog. Does nothing if the
+    /// deletion has already been backlogged.
     ///
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
-    ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -43,14 +40,11 @@ impl Backlog {
             .insert(deletion);
     }
 
-    /// Inserts a new [`Insertion`] into the backlog.
+    /// Inserts a new [`Insertion`] into the backlog. Does nothing if the
+    /// insertion has already been backlogged.
     ///
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
-    ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -64,6 +58,31 @@ impl Backlog {
     pub fn new() -> Self {
         Self::default()
     }
+
+    /// Removes the given [`Deletion`] from the backlog, if it's there.
+    ///
+    /// The deletion must be ready to be merged, which means that it can only
+    /// be at the front of the deletions made by the same replica.
+    #[inline]
+    pub fn remove_deletion(&mut self, deletion: &Deletion) {
+        if let Some(backlog) = self.deletions.get_mut(&deletion.deleted_by())
+        {
+            backlog.remove_first(deletion);
+        }
+    }
+
+    /// Removes the given [`Insertion`] from the backlog, if it's there.
+    ///
+    /// The insertion must be ready to be merged, which means that it can only
+    /// be at the front of the insertions made by the same replica.
+    #[inline]
+    pub fn remove_insertion(&mut self, insertion: &Insertion) {
+        if let Some(backlog) =
+            self.insertions.get_mut(&insertion.inserted_by())
+        {
+            backlog.remove_first(insertion);
+        }
+    }
 }
 
 /// Stores the backlogged [`Insertion`]s of a particular replica.
@@ -97,17 +116,22 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
+        if let Err(offset) = self
             .insertions
             .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
+        {
+            self.insertions.insert(offset, insertion);
+        }
+    }
 
-        self.insertions.insert(offset, insertion);
+    #[inline]
+    fn remove_first(&mut self, insertion: &Insertion) {
+        let first = self.insertions.front();
+        if first.map(Insertion::start) == Some(insertion.start()) {
+            self.insertions.pop_front();
+        }
     }
 }
 
@@ -142,19 +166,21 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
-
-        self.deletions.insert(offset, deletion);
+        if let Err(offset) = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        }) {
+            self.deletions.insert(offset, deletion);
+        }
+    }
+
+    #[inline]
+    fn remove_first(&mut self, deletion: &Deletion) {
+        let first = self.deletions.front();
+        if first.map(Deletion::deletion_ts) == Some(deletion.deletion_ts()) {
+            self.deletions.pop_front();
+        }
     }
 }
 
diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..a081c06 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -715,6 +715,8 @@ impl Replica {
         if deletion.is_no_op() || self.has_merged_deletion(deletion) {
             Vec::new()
         } else if self.can_merge_deletion(deletion) {
+            // It might have been backlogged the first time it was received.
+            self.backlog.remove_deletion(deletion);
             self.merge_unchecked_deletion(deletion)
         } else {
             self.backlog.insert_deletion(deletion.clone());
@@ -774,6 +776,8 @@ impl Replica {
         if insertion.is_no_op() || self.has_merged_insertion(insertion) {
             None
         } else if self.can_merge_insertion(insertion) {
+            // It might have been backlogged the first time it was received.
+            self.backlog.remove_insertion(insertion);
             Some(self.merge_unchecked_insertion(insertion))
         } else {
             self.backlog.insert_insertion(insertion.clone());
-- 
2.43.0


From 1668a5fd9c56f60572229b4dc626b0b2281f6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 2/7] fix: don't panic when resolving an anchor to a character
 that's not there yet

Right-biased anchors refer to the character after their offset, so a
replica that only has everything up to the offset can't resolve them.
---
 src/replica.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index a081c06..b9d9b89 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -933,7 +933,21 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        let inner = anchor.inner();
+
+        let has_anchor = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(inner),
+
+            // The anchor sticks to the character *after* its offset, so it's
+            // not enough to have everything up to it.
+            AnchorBias::Right => {
+                inner.is_zero()
+                    || self.version_map.get(inner.replica_id())
+                        > inner.offset()
+            },
+        };
+
+        if has_anchor {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From 7a91bb20dc22852e2103bfbbd99c496e1752440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 3/7] fix: return an error instead of panicking when decoding
 invalid data

Offsets, lengths and indices read from the buffer were added up and used
without checking them.
---
 src/backlog.rs  |  5 ++++-
 src/deletion.rs |  5 ++++-
 src/gtree.rs    |  3 +++
 src/run_tree.rs | 23 +++++++++++++++++------
 src/text.rs     |  3 ++-
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 3f72657..7e4465a 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -487,9 +487,12 @@ pub(crate) mod encode {
                 let (run_ts, new_buf) = RunTs::decode(new_buf)?;
                 let (lamport_ts, new_buf) = LamportTs::decode(new_buf)?;
 
+                let end =
+                    start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+
                 let insertion = Insertion::new(
                     anchor,
-                    Text::new(replica_id, start..start + len),
+                    Text::new(replica_id, start..end),
                     lamport_ts,
                     run_ts,
                 );
diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..ccc0b82 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -277,9 +277,12 @@ mod encode {
                     let (run_ts, buf) = RunTs::decode(buf)?;
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
                     let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                        InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..16b348c 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -3730,6 +3730,9 @@ pub(crate) mod encode {
             let (parent, buf) = InodeIdx::decode(buf)?;
             let (num_children, buf) = usize::decode(buf)?;
             let (has_leaves, mut buf) = bool::decode(buf)?;
+            if num_children > N {
+                return Err(IntDecodeError::Overflow.into());
+            }
             let mut children = [NodeIdx::dangling(); N];
             for idx in &mut children[..num_children] {
                 let (node_idx, new_buf) = NodeIdx::decode(buf)?;
diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..751cb7b 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -1243,6 +1243,11 @@ pub(crate) mod encode {
 
             let (num_leaves, mut buf) = u64::decode(buf)?;
 
+            // Every leaf takes up more than one byte.
+            if num_leaves > buf.len() as u64 {
+                return Err(IntDecodeError::NotEnoughBytes.into());
+            }
+
             let mut ctx = RunTreeDecodeCtx::default();
 
             let dummy_lnode =
@@ -1434,21 +1439,27 @@ pub(crate) mod encode {
             let (leaf_idx, buf) = LeafIdx::<EditRun>::decode(buf)?;
             let (parent_idx, buf) = InodeIdx::decode(buf)?;
 
-            ctx.fragments.append(Fragment::new(len, leaf_idx));
-
             let temporal_start = ctx.temporal_offset;
 
-            ctx.temporal_offset += len;
+            let temporal_end = temporal_start
+                .checked_add(len)
+                .ok_or(IntDecodeError::Overflow)?;
 
-            let temporal_end = ctx.temporal_offset;
+            ctx.temporal_offset = temporal_end;
+
+            ctx.fragments.append(Fragment::new(len, leaf_idx));
 
             let text = Text::new(ctx.replica_id, temporal_start..temporal_end);
 
             let edit_run =
                 EditRun::new(text, ctx.run_ts, lamport_ts, is_deleted);
 
-            ctx.lnodes[leaf_idx.into_usize()] =
-                Lnode::new(edit_run, parent_idx);
+            let lnode = ctx
+                .lnodes
+                .get_mut(leaf_idx.into_usize())
+                .ok_or(IntDecodeError::Overflow)?;
+
+            *lnode = Lnode::new(edit_run, parent_idx);
 
             Ok(((), buf))
         }
diff --git a/src/text.rs b/src/text.rs
index 554cf42..12c5d87 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,8 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end = start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From 0fc9f39409262342146913781df91f0ec69ce5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 4/7] fix: panic when deleting a range that includes
 Length::MAX

The end of the range wrapped around to zero in release builds, which
turned an out of bounds deletion into a no-op.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..9f74c9e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -112,12 +112,12 @@ where
 
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        Bound::Excluded(&n) => n.saturating_add(1),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => n.saturating_add(1),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From 7aff3ef53f9921e589cbba5a7bb2fdf4a420e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 5/7] add hooks for verification, off by default

cola_verif_small shrinks the nodes of the trees, cola_verif exposes the
crate's internals to a file named at build time.
---
 src/lib.rs         | 11 +++++++++++
 src/run_indices.rs |  5 +++++
 src/run_tree.rs    |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 31bafc0..f1288f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,6 +119,7 @@
 #![allow(clippy::explicit_auto_deref)]
 #![allow(clippy::module_inception)]
 #![allow(clippy::needless_doctest_main)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
@@ -274,3 +275,13 @@ pub type Length = usize;
 /// See [`ProtocolVersion`] for more infos.
 #[cfg(feature = "encode")]
 const PROTOCOL_VERSION: ProtocolVersion = 3;
+
+/// Gives verification harnesses access to the crate's internals.
+#[cfg(cola_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+
+    include!(env!("COLA_VERIF_HOOKS"));
+}
diff --git a/src/run_indices.rs b/src/run_indices.rs
index 49b03c1..d24f728 100644
--- a/src/run_indices.rs
+++ b/src/run_indices.rs
@@ -224,8 +224,13 @@ impl ReplicaIndices {
     }
 }
 
+#[cfg(not(cola_verif_small))]
 const FRAGMENTS_INLINE: usize = 8;
 
+// Used in verification to get deep trees out of short editing sessions.
+#[cfg(cola_verif_small)]
+const FRAGMENTS_INLINE: usize = 4;
+
 pub(crate) type Fragments = fragments::Fragments<FRAGMENTS_INLINE>;
 
 mod fragments {
diff --git a/src/run_tree.rs b/src/run_tree.rs
index 751cb7b..9c04dfe 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -4,8 +4,13 @@ use core::ops;
 use crate::anchor::{Anchor as BiasedAnchor, InnerAnchor as Anchor};
 use crate::*;
 
+#[cfg(not(cola_verif_small))]
 const RUN_TREE_ARITY: usize = 32;
 
+// Used in verification to get deep trees out of short editing sessions.
+#[cfg(cola_verif_small)]
+const RUN_TREE_ARITY: usize = 4;
+
 type Gtree = crate::Gtree<RUN_TREE_ARITY, EditRun>;
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From de3603d44828f7546f2032d186380b792a86d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 6/7] fix: overflow when creating an anchor in a very long
 document

---
 src/run_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index 9c04dfe..e564731 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -120,7 +120,7 @@ impl RunTree {
 
         let inserted_by = edit_run.replica_id();
 
-        let offset = edit_run.start() + at_offset - leaf_offset;
+        let offset = edit_run.start() + (at_offset - leaf_offset);
 
         let contained_in = edit_run.run_ts();
 
-- 
2.43.0


From 52b4f48c7d5b9bb4d688e7aa43a99a0fd83ebe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:11 +0000
Subject: [PATCH 7/7] fix: deleting next to a deleted fragment could overflow
 in very long documents

---
 src/run_indices.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/run_indices.rs b/src/run_indices.rs
index d24f728..9230eee 100644
--- a/src/run_indices.rs
+++ b/src/run_indices.rs
@@ -428,7 +428,9 @@ mod fragments {
 
                     let prev_idx = gtree.prev_leaf(leaf_idx).unwrap();
 
-                    gtree.with_two_mut(prev_idx, leaf_idx, |prev, this| {
+                    // The length is removed before it's added so that the
+                    // length of the Gtree can't overflow.
+                    gtree.with_two_mut(leaf_idx, prev_idx, |this, prev| {
                         this.len -= len_move;
                         prev.len += len_move;
                     });
-- 
2.43.0

