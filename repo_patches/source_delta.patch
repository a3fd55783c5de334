From 070a9f051a5688de6f0ce1039abc6d783dd509dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 1/8] fix: resolve right-biased anchors only if their text was
 integrated

A right-biased anchor is attached to the character after its offset, but
resolve_anchor() only checked for the one before it, so it panicked instead
of returning None when that character had not been integrated yet.
---
 src/replica.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..94124b5 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -929,7 +929,21 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        let inner = anchor.inner();
+
+        let is_known = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(inner),
+
+            // A right-biased anchor is attached to the character that starts
+            // at its offset, so that character must've been integrated too.
+            AnchorBias::Right => {
+                inner.is_zero()
+                    || self.version_map.get(inner.replica_id())
+                        > inner.offset()
+            },
+        };
+
+        if is_known {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From 35f254f6a9597b3c38493bb228158ebdce4de0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 2/8] fix: ignore edits that are already in the backlog

Integrating an edit again while it's still backlogged panicked.
---
 src/backlog.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..894c073 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -32,9 +32,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
+    /// Does nothing if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -48,9 +46,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
+    /// Does nothing if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -97,17 +93,15 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
+    /// Does nothing if the insertion has already been inserted.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
+        if let Err(offset) = self
             .insertions
             .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
-
-        self.insertions.insert(offset, insertion);
+        {
+            self.insertions.insert(offset, insertion);
+        }
     }
 }
 
@@ -142,19 +136,14 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
+    /// Does nothing if the deletion has already been inserted.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
-
-        self.deletions.insert(offset, deletion);
+        if let Err(offset) = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        }) {
+            self.deletions.insert(offset, deletion);
+        }
     }
 }
 
-- 
2.43.0


From 30149f6800aafee9040a01f4388dcd11d15172d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 3/8] fix: drop backlogged edits that were merged in the
 meantime

If a backlogged edit was integrated again once it was ready it was merged
right away while a copy of it was left at the front of the backlog, where
it kept all the later edits by the same replica from ever being merged.
---
 src/backlog.rs | 12 ++++++++++++
 src/replica.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 894c073..eac895f 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -194,6 +194,12 @@ impl Iterator for BackloggedDeletions<'_> {
             return self.next();
         };
 
+        if self.replica.has_merged_deletion(first) {
+            // It was integrated again, and merged, after being backlogged.
+            deletions.deletions.pop_front();
+            return self.next();
+        }
+
         if self.replica.can_merge_deletion(first) {
             let first = deletions.deletions.pop_front().unwrap();
             let ranges = self.replica.merge_unchecked_deletion(&first);
@@ -258,6 +264,12 @@ impl Iterator for BackloggedInsertions<'_> {
             return self.next();
         };
 
+        if self.replica.has_merged_insertion(first) {
+            // It was integrated again, and merged, after being backlogged.
+            insertions.insertions.pop_front();
+            return self.next();
+        }
+
         if self.replica.can_merge_insertion(first) {
             let first = insertions.insertions.pop_front().unwrap();
             let edit = self.replica.merge_unchecked_insertion(&first);
diff --git a/src/replica.rs b/src/replica.rs
index 94124b5..244731e 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -562,14 +562,14 @@ impl Replica {
     /// Returns `true` if this `Replica` has already merged the given
     /// `Deletion`.
     #[inline]
-    fn has_merged_deletion(&self, deletion: &Deletion) -> bool {
+    pub(crate) fn has_merged_deletion(&self, deletion: &Deletion) -> bool {
         self.deletion_map.get(deletion.deleted_by()) >= deletion.deletion_ts()
     }
 
     /// Returns `true` if this `Replica` has already merged the given
     /// `Insertion`.
     #[inline]
-    fn has_merged_insertion(&self, insertion: &Insertion) -> bool {
+    pub(crate) fn has_merged_insertion(&self, insertion: &Insertion) -> bool {
         self.version_map.get(insertion.inserted_by()) > insertion.start()
     }
 
-- 
2.43.0


From 057319e06ed4f1580a969936a2d23bc110b51d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 4/8] fix: yield all the backlogged insertions that become
 ready

The iterator visited the backlog of each replica once, so insertions that
became ready because of an insertion merged from another replica's backlog
could be left behind.
---
 src/backlog.rs | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index eac895f..4154f50 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -225,8 +225,7 @@ impl core::iter::FusedIterator for BackloggedDeletions<'_> {}
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedInsertions<'a> {
     replica: &'a mut Replica,
-    current: Option<&'a mut InsertionsBacklog>,
-    iter: ReplicaIdMapValuesMut<'a, InsertionsBacklog>,
+    backlog: &'a mut ReplicaIdMap<InsertionsBacklog>,
 }
 
 impl<'a> BackloggedInsertions<'a> {
@@ -244,11 +243,7 @@ impl<'a> BackloggedInsertions<'a> {
             core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
         };
 
-        let mut iter = backlog.insertions.values_mut();
-
-        let current = iter.next();
-
-        Self { replica, current, iter }
+        Self { replica, backlog: &mut backlog.insertions }
     }
 }
 
@@ -257,27 +252,25 @@ impl Iterator for BackloggedInsertions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let insertions = self.current.as_mut()?;
-
-        let Some(first) = insertions.insertions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
-
-        if self.replica.has_merged_insertion(first) {
-            // It was integrated again, and merged, after being backlogged.
-            insertions.insertions.pop_front();
-            return self.next();
+        // Merging an insertion can make the ones that other replicas have
+        // anchored to it ready, so we always start from the first backlog.
+        for insertions in self.backlog.values_mut() {
+            while let Some(first) = insertions.insertions.front() {
+                if self.replica.has_merged_insertion(first) {
+                    // It was integrated again, and merged, after being
+                    // backlogged.
+                    insertions.insertions.pop_front();
+                } else if self.replica.can_merge_insertion(first) {
+                    let first = insertions.insertions.pop_front().unwrap();
+                    let edit = self.replica.merge_unchecked_insertion(&first);
+                    return Some((first.text().clone(), edit));
+                } else {
+                    break;
+                }
+            }
         }
 
-        if self.replica.can_merge_insertion(first) {
-            let first = insertions.insertions.pop_front().unwrap();
-            let edit = self.replica.merge_unchecked_insertion(&first);
-            Some((first.text().clone(), edit))
-        } else {
-            self.current = self.iter.next();
-            self.next()
-        }
+        None
     }
 }
 
-- 
2.43.0


From 3c8e6a0f6ab4b199c2afe1d2bb569dc12c7a4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 5/8] fix: don't mutate the Gtree through a shared reference

Integrating a deletion transmuted a &Gtree into a &mut Gtree, which is
undefined behaviour (Miri reports it under both aliasing models).
---
 src/run_tree.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..d766907 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -688,22 +688,13 @@ impl RunTree {
                 continue;
             }
 
-            // This is awful but I'm not sure it can be avoided. We
-            // transmute a shared reference to the Gtree to an exclusive
-            // one to modify it while we're iterating over it.
-            //
-            // SAFETY: this is safe because deleting a whole run doesn't
-            // modify the Gtree's structure at all (no heap allocations,
-            // etc), only the lengths of all the nodes from the run we're
-            // deleting up to the root.
-            let gtree = unsafe {
-                #[allow(mutable_transmutes)]
-                core::mem::transmute::<&Gtree, &mut Gtree>(&self.gtree)
-            };
+            self.gtree.with_leaf_mut(run_idx, EditRun::delete);
 
-            gtree.with_leaf_mut(run_idx, EditRun::delete);
+            self.gtree.remove_cursor();
 
-            gtree.remove_cursor();
+            // Deleting a whole run doesn't modify the Gtree's structure, so
+            // we can resume right after it.
+            runs = self.gtree.leaves::<false>(run_idx);
 
             if !matches!(state, DeletionState::Deleting(_)) {
                 state = DeletionState::Deleting(visible_offset);
-- 
2.43.0


From 48adbe054632945aa498f00244f6460d69e7409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 6/8] fix: reject ranges that end at the maximum offset

deleted(0..=usize::MAX) overflowed: it panicked in debug builds, and in
release builds it was silently treated as an empty range.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..9f74c9e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -112,12 +112,12 @@ where
 
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        Bound::Excluded(&n) => n.saturating_add(1),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => n.saturating_add(1),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From a6fddb8ba5c88c0974b0ceec131385032ea5666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 7/8] fix: return an error when decoding an edit whose offsets
 overflow

Decoding a malformed edit overflowed, which panicked in debug builds, and
the buffer to decode was allocated with an untrusted capacity.
---
 src/deletion.rs | 6 ++++--
 src/encode.rs   | 3 ++-
 src/text.rs     | 4 +++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..d382d9d 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -278,8 +278,10 @@ mod encode {
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
-                    let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
+                    let end = InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/encode.rs b/src/encode.rs
index 4cc71ed..338a10c 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -181,7 +181,8 @@ mod serde {
                         where
                             A: ::serde::de::SeqAccess<'de>,
                         {
-                            let size = seq.size_hint().unwrap_or(0);
+                            // The hint comes from the data being decoded.
+                            let size = seq.size_hint().unwrap_or(0).min(4096);
                             let mut buf =
                                 ::alloc::vec::Vec::<u8>::with_capacity(size);
                             while let Some(byte) = seq.next_element()? {
diff --git a/src/text.rs b/src/text.rs
index 554cf42..6b2f4e6 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,9 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end =
+                start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From b175bb68d53683c387eb4b36808f9d4bfc095578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 8/8] fix: return an error when decoding a replica from
 malformed data

---
 src/backlog.rs  |  5 ++++-
 src/gtree.rs    |  5 ++++-
 src/run_tree.rs | 17 +++++++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 4154f50..f30808e 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -455,9 +455,12 @@ pub(crate) mod encode {
                 let (run_ts, new_buf) = RunTs::decode(new_buf)?;
                 let (lamport_ts, new_buf) = LamportTs::decode(new_buf)?;
 
+                let end =
+                    start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+
                 let insertion = Insertion::new(
                     anchor,
-                    Text::new(replica_id, start..start + len),
+                    Text::new(replica_id, start..end),
                     lamport_ts,
                     run_ts,
                 );
diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..84882b0 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -3731,7 +3731,10 @@ pub(crate) mod encode {
             let (num_children, buf) = usize::decode(buf)?;
             let (has_leaves, mut buf) = bool::decode(buf)?;
             let mut children = [NodeIdx::dangling(); N];
-            for idx in &mut children[..num_children] {
+            for idx in children
+                .get_mut(..num_children)
+                .ok_or(IntDecodeError::Overflow)?
+            {
                 let (node_idx, new_buf) = NodeIdx::decode(buf)?;
                 *idx = node_idx;
                 buf = new_buf;
diff --git a/src/run_tree.rs b/src/run_tree.rs
index d766907..9683020 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -1234,6 +1234,11 @@ pub(crate) mod encode {
 
             let (num_leaves, mut buf) = u64::decode(buf)?;
 
+            // Every leaf takes up at least one byte.
+            if num_leaves > buf.len() as u64 {
+                return Err(IntDecodeError::NotEnoughBytes.into());
+            }
+
             let mut ctx = RunTreeDecodeCtx::default();
 
             let dummy_lnode =
@@ -1425,11 +1430,13 @@ pub(crate) mod encode {
             let (leaf_idx, buf) = LeafIdx::<EditRun>::decode(buf)?;
             let (parent_idx, buf) = InodeIdx::decode(buf)?;
 
-            ctx.fragments.append(Fragment::new(len, leaf_idx));
-
             let temporal_start = ctx.temporal_offset;
 
-            ctx.temporal_offset += len;
+            ctx.temporal_offset = temporal_start
+                .checked_add(len)
+                .ok_or(IntDecodeError::Overflow)?;
+
+            ctx.fragments.append(Fragment::new(len, leaf_idx));
 
             let temporal_end = ctx.temporal_offset;
 
@@ -1438,7 +1445,9 @@ pub(crate) mod encode {
             let edit_run =
                 EditRun::new(text, ctx.run_ts, lamport_ts, is_deleted);
 
-            ctx.lnodes[leaf_idx.into_usize()] =
+            *ctx.lnodes
+                .get_mut(leaf_idx.into_usize())
+                .ok_or(IntDecodeError::Overflow)? =
                 Lnode::new(edit_run, parent_idx);
 
             Ok(((), buf))
-- 
2.43.0

