From c888a5ee50d97156b8317318583336156345562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 01/14] Model checking hook: smaller tree nodes under --cfg
 cola_mc

---
 src/run_indices.rs | 4 +++-
 src/run_tree.rs    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/run_indices.rs b/src/run_indices.rs
index 49b03c1..58b8f0c 100644
--- a/src/run_indices.rs
+++ b/src/run_indices.rs
@@ -224,7 +224,9 @@ impl ReplicaIndices {
     }
 }
 
-const FRAGMENTS_INLINE: usize = 8;
+/// Smaller in model checking builds, see `RUN_TREE_ARITY`.
+#[allow(unexpected_cfgs)]
+const FRAGMENTS_INLINE: usize = if cfg!(cola_mc) { 4 } else { 8 };
 
 pub(crate) type Fragments = fragments::Fragments<FRAGMENTS_INLINE>;
 
diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..368d382 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -4,7 +4,10 @@ use core::ops;
 use crate::anchor::{Anchor as BiasedAnchor, InnerAnchor as Anchor};
 use crate::*;
 
-const RUN_TREE_ARITY: usize = 32;
+/// Model checking builds (`--cfg cola_mc`) use smaller nodes, so that trees with
+/// several levels are reached by short editing histories.
+#[allow(unexpected_cfgs)]
+const RUN_TREE_ARITY: usize = if cfg!(cola_mc) { 4 } else { 32 };
 
 type Gtree = crate::Gtree<RUN_TREE_ARITY, EditRun>;
 
-- 
2.43.0


From e7eea51ef428597670241a7bf80a52b2d48ca610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 02/14] fix: receiving an edit that is already backlogged
 doesn't panic

Both backlogs unwrapped the error of the binary search for the position of
the new edit, so that a second delivery of an edit that was still waiting
for its context panicked.
---
 src/backlog.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..894c073 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -32,9 +32,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
+    /// Does nothing if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -48,9 +46,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
+    /// Does nothing if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -97,17 +93,15 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
+    /// Does nothing if the insertion has already been inserted.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
+        if let Err(offset) = self
             .insertions
             .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
-
-        self.insertions.insert(offset, insertion);
+        {
+            self.insertions.insert(offset, insertion);
+        }
     }
 }
 
@@ -142,19 +136,14 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
+    /// Does nothing if the deletion has already been inserted.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
-
-        self.deletions.insert(offset, deletion);
+        if let Err(offset) = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        }) {
+            self.deletions.insert(offset, deletion);
+        }
     }
 }
 
-- 
2.43.0


From 88c133817d85840db272417febd1a5c67c6a1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 03/14] fix: merging an edit removes its copy from the backlog

An edit that was backlogged, became ready, and was then received again
before the backlog was drained was merged right away, but its copy stayed at
the front of its author's backlog. It could never be merged a second time,
so every later backlogged edit by the same author was stuck behind it (or,
with debug assertions, draining the backlog panicked).
---
 src/backlog.rs | 37 +++++++++++++++++++++++++++++++++++++
 src/replica.rs |  6 ++++++
 2 files changed, 43 insertions(+)

diff --git a/src/backlog.rs b/src/backlog.rs
index 894c073..73557ab 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -55,6 +55,24 @@ impl Backlog {
             .insert(insertion);
     }
 
+    /// Removes the given [`Deletion`] from the backlog, if it's there.
+    #[inline]
+    pub fn remove_deletion(&mut self, deletion: &Deletion) {
+        if let Some(backlog) = self.deletions.get_mut(&deletion.deleted_by()) {
+            backlog.remove(deletion);
+        }
+    }
+
+    /// Removes the given [`Insertion`] from the backlog, if it's there.
+    #[inline]
+    pub fn remove_insertion(&mut self, insertion: &Insertion) {
+        if let Some(backlog) =
+            self.insertions.get_mut(&insertion.inserted_by())
+        {
+            backlog.remove(insertion);
+        }
+    }
+
     /// Creates a new, empty `Backlog`.
     #[inline]
     pub fn new() -> Self {
@@ -103,6 +121,16 @@ impl InsertionsBacklog {
             self.insertions.insert(offset, insertion);
         }
     }
+
+    #[inline]
+    fn remove(&mut self, insertion: &Insertion) {
+        if let Ok(offset) = self
+            .insertions
+            .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
+        {
+            self.insertions.remove(offset);
+        }
+    }
 }
 
 /// Stores the backlogged [`Deletion`]s of a particular replica.
@@ -145,6 +173,15 @@ impl DeletionsBacklog {
             self.deletions.insert(offset, deletion);
         }
     }
+
+    #[inline]
+    fn remove(&mut self, deletion: &Deletion) {
+        if let Ok(offset) = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        }) {
+            self.deletions.remove(offset);
+        }
+    }
 }
 
 /// An iterator over the backlogged deletions that are ready to be
diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..34747cf 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -715,6 +715,9 @@ impl Replica {
         if deletion.is_no_op() || self.has_merged_deletion(deletion) {
             Vec::new()
         } else if self.can_merge_deletion(deletion) {
+            // The deletion could've been backlogged the first time it was
+            // received.
+            self.backlog.remove_deletion(deletion);
             self.merge_unchecked_deletion(deletion)
         } else {
             self.backlog.insert_deletion(deletion.clone());
@@ -774,6 +777,9 @@ impl Replica {
         if insertion.is_no_op() || self.has_merged_insertion(insertion) {
             None
         } else if self.can_merge_insertion(insertion) {
+            // The insertion could've been backlogged the first time it was
+            // received.
+            self.backlog.remove_insertion(insertion);
             Some(self.merge_unchecked_insertion(insertion))
         } else {
             self.backlog.insert_insertion(insertion.clone());
-- 
2.43.0


From cf2718f690405c38636cc573bcc1a883b38bf1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 04/14] fix: backlogged_insertions yields all the insertions
 that are ready

The iterator went through the authors once, in the map's order. An
insertion that only became ready when the insertion of an author further
down was merged was not yielded, although all of its context had been
integrated.
---
 src/backlog.rs | 51 +++++++++++++++++++-------------------------------
 src/replica.rs |  5 +++++
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 73557ab..59618aa 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -256,30 +256,12 @@ impl core::iter::FusedIterator for BackloggedDeletions<'_> {}
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedInsertions<'a> {
     replica: &'a mut Replica,
-    current: Option<&'a mut InsertionsBacklog>,
-    iter: ReplicaIdMapValuesMut<'a, InsertionsBacklog>,
 }
 
 impl<'a> BackloggedInsertions<'a> {
     #[inline]
     pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
-        let backlog = replica.backlog_mut();
-
-        // We transmute the exclusive reference to the backlog into the same
-        // type to get around the borrow checker.
-        //
-        // SAFETY: this is safe because in the `Iterator` implementation we
-        // never access the backlog through the `Replica`, neither directly nor
-        // by calling any methods on `Replica` that would access the backlog.
-        let backlog = unsafe {
-            core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
-        };
-
-        let mut iter = backlog.insertions.values_mut();
-
-        let current = iter.next();
-
-        Self { replica, current, iter }
+        Self { replica }
     }
 }
 
@@ -288,21 +270,26 @@ impl Iterator for BackloggedInsertions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let insertions = self.current.as_mut()?;
+        // Merging an insertion can make any other replica's insertions ready
+        // to be merged, so we always have to look at all of them.
+        let id = self.replica.backlog().insertions.iter().find_map(
+            |(&id, insertions)| {
+                let first = insertions.insertions.front()?;
+                self.replica.can_merge_insertion(first).then_some(id)
+            },
+        )?;
+
+        let first = self
+            .replica
+            .backlog_mut()
+            .insertions
+            .get_mut(&id)?
+            .insertions
+            .pop_front()?;
 
-        let Some(first) = insertions.insertions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
+        let edit = self.replica.merge_unchecked_insertion(&first);
 
-        if self.replica.can_merge_insertion(first) {
-            let first = insertions.insertions.pop_front().unwrap();
-            let edit = self.replica.merge_unchecked_insertion(&first);
-            Some((first.text().clone(), edit))
-        } else {
-            self.current = self.iter.next();
-            self.next()
-        }
+        Some((first.text().clone(), edit))
     }
 }
 
diff --git a/src/replica.rs b/src/replica.rs
index 34747cf..a738412 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -200,6 +200,11 @@ impl Replica {
         BackloggedInsertions::from_replica(self)
     }
 
+    #[inline]
+    pub(crate) fn backlog(&self) -> &Backlog {
+        &self.backlog
+    }
+
     #[inline]
     pub(crate) fn backlog_mut(&mut self) -> &mut Backlog {
         &mut self.backlog
-- 
2.43.0


From 5560bce1ce7b6e0fc253a70cd1c5b6cf857110c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 05/14] fix: resolving an anchor to text that's not there yet
 gives None

A right-biased anchor at the very start of an insertion that the replica
hadn't yet integrated was considered to be in the document, and resolving it
panicked.
---
 src/replica.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index a738412..30c9537 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -940,7 +940,18 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        let has_anchor = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(anchor.inner()),
+            // The anchor is attached to the character right after it, which
+            // also needs to be in the document.
+            AnchorBias::Right => {
+                anchor.is_end_of_document()
+                    || self.version_map.get(anchor.inner().replica_id())
+                        > anchor.inner().offset()
+            },
+        };
+
+        if has_anchor {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From 44c2e3438a7a974e3cb3481e2dd01624b8cf6116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 06/14] fix: a deleted range bound at the maximum offset is out
 of bounds

The offset after an inclusive end or an exclusive start overflowed to zero
in release builds, so that e.g. `deleted(0..=usize::MAX)` was accepted and
did nothing.
---
 src/utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..ab68ae9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -110,14 +110,20 @@ where
 {
     use core::ops::Bound;
 
+    // The offset after the given one, which is out of bounds if it overflows.
+    let after = |n: Length| match n.checked_add(1) {
+        Some(next) => next,
+        None => panic_messages::offset_out_of_bounds(n, hi),
+    };
+
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        Bound::Excluded(&n) => after(n),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => after(n),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From a9b83fe6b1aab7e5a132c9454f58540216b9f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 07/14] fix: decoding an edit whose text range overflows gives
 an error

It panicked with overflow checks, and gave a Text or Deletion whose end
comes before its start without them.
---
 src/deletion.rs | 5 ++++-
 src/text.rs     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..ccc0b82 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -277,9 +277,12 @@ mod encode {
                     let (run_ts, buf) = RunTs::decode(buf)?;
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
                     let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                        InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/text.rs b/src/text.rs
index 554cf42..6b2f4e6 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,9 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end =
+                start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From c65ea174571b71bf6811e9ab9caa9c7e379b7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 08/14] fix: don't trust the size hint of a serialized byte
 sequence

Deserializing a few malformed bytes in a format that carries the length
of sequences (e.g. CBOR) tried to allocate as much as the input claimed,
which panics or aborts the process.
---
 src/encode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4cc71ed..4294fa9 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -181,7 +181,9 @@ mod serde {
                         where
                             A: ::serde::de::SeqAccess<'de>,
                         {
-                            let size = seq.size_hint().unwrap_or(0);
+                            // The hint comes from the input, it mustn't be
+                            // trusted with arbitrarily large allocations.
+                            let size = seq.size_hint().unwrap_or(0).min(4096);
                             let mut buf =
                                 ::alloc::vec::Vec::<u8>::with_capacity(size);
                             while let Some(byte) = seq.next_element()? {
-- 
2.43.0


From 5f5bd0671cc39a20e4f9070ddf655dbff3c1bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:47 +0000
Subject: [PATCH 09/14] fix: ask formats for owned bytes when deserializing

A reader which only lends its bytes may be limited in how many it can
lend at once: encoded replicas of more than 4096 bytes could be written
to CBOR but not read back.
---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4294fa9..c7129a9 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -197,7 +197,10 @@ mod serde {
                         }
                     }
 
-                    deserializer.deserialize_bytes(Visitor)
+                    // Values can be arbitrarily long, and readers that only
+                    // lend their bytes may not be able to produce them all at
+                    // once.
+                    deserializer.deserialize_byte_buf(Visitor)
                 }
             }
         };
-- 
2.43.0


From 720093530e3aff7aa7e8e736dece4acd7b7f3ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 10/14] fix: create_anchor overflowed in documents of more than
 usize::MAX / 2 units

The sum of a run's start and the offset can be larger than the result.
---
 src/run_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index 368d382..f3d4318 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -118,7 +118,7 @@ impl RunTree {
 
         let inserted_by = edit_run.replica_id();
 
-        let offset = edit_run.start() + at_offset - leaf_offset;
+        let offset = edit_run.start() + (at_offset - leaf_offset);
 
         let contained_in = edit_run.run_ts();
 
-- 
2.43.0


From 53d359bad2b07056ec2b9cd14d4815a7a7bcdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 11/14] fix: don't recurse over backlogged deletions without
 effect

BackloggedDeletions::next() called itself once for every backlogged
deletion that has no effect (because somebody else had deleted the same
text), so a few thousands of them overflowed the stack.
---
 src/backlog.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 59618aa..5c7c26f 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -224,24 +224,26 @@ impl Iterator for BackloggedDeletions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let deletions = self.current.as_mut()?;
+        loop {
+            let deletions = self.current.as_mut()?;
 
-        let Some(first) = deletions.deletions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
+            let Some(first) = deletions.deletions.front() else {
+                self.current = self.iter.next();
+                continue;
+            };
+
+            if !self.replica.can_merge_deletion(first) {
+                self.current = self.iter.next();
+                continue;
+            }
 
-        if self.replica.can_merge_deletion(first) {
             let first = deletions.deletions.pop_front().unwrap();
+
             let ranges = self.replica.merge_unchecked_deletion(&first);
-            if ranges.is_empty() {
-                self.next()
-            } else {
-                Some(ranges)
+
+            if !ranges.is_empty() {
+                return Some(ranges);
             }
-        } else {
-            self.current = self.iter.next();
-            self.next()
         }
     }
 }
-- 
2.43.0


From 4c12ea5a1cfe2b73072674aa96baaf147395f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 12/14] fix: don't mutate the tree through a shared reference
 while merging deletions

RunTree::merge_deletion transmuted &Gtree to &mut Gtree while the iterator over
the leaves was alive, which is undefined behaviour whatever is done with it.
---
 src/run_tree.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index f3d4318..1edcb7a 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -607,10 +607,12 @@ impl RunTree {
             }
         };
 
-        let mut runs = self.gtree.leaves::<true>(start_idx);
+        let mut next_idx = Some(start_idx);
 
         loop {
-            let (run_idx, run) = runs.next().unwrap();
+            let run_idx = next_idx.unwrap();
+
+            let run = self.gtree.leaf(run_idx);
 
             if run_idx == end_idx {
                 if run.is_deleted {
@@ -642,6 +644,8 @@ impl RunTree {
                 break;
             }
 
+            next_idx = self.gtree.next_leaf(run_idx);
+
             if run.is_deleted {
                 continue;
             }
@@ -664,11 +668,11 @@ impl RunTree {
                 } else {
                     let delete_up_to = deleted_up_to - run.start();
 
-                    let next_idx = self.delete_leaf_range(
+                    next_idx = Some(self.delete_leaf_range(
                         run_idx,
                         leaf_offset,
                         (0..delete_up_to).into(),
-                    );
+                    ));
 
                     let deletion_start =
                         if let DeletionState::Deleting(start) = state {
@@ -684,29 +688,14 @@ impl RunTree {
                     state = DeletionState::Skipping;
 
                     visible_offset += delete_up_to;
-
-                    runs = self.gtree.leaves::<true>(next_idx);
                 }
 
                 continue;
             }
 
-            // This is awful but I'm not sure it can be avoided. We
-            // transmute a shared reference to the Gtree to an exclusive
-            // one to modify it while we're iterating over it.
-            //
-            // SAFETY: this is safe because deleting a whole run doesn't
-            // modify the Gtree's structure at all (no heap allocations,
-            // etc), only the lengths of all the nodes from the run we're
-            // deleting up to the root.
-            let gtree = unsafe {
-                #[allow(mutable_transmutes)]
-                core::mem::transmute::<&Gtree, &mut Gtree>(&self.gtree)
-            };
-
-            gtree.with_leaf_mut(run_idx, EditRun::delete);
+            self.gtree.with_leaf_mut(run_idx, EditRun::delete);
 
-            gtree.remove_cursor();
+            self.gtree.remove_cursor();
 
             if !matches!(state, DeletionState::Deleting(_)) {
                 state = DeletionState::Deleting(visible_offset);
-- 
2.43.0


From 41427ff977b2642caf039f576c8eeb100b6f3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:35 +0000
Subject: [PATCH 13/14] fix: do not iterate over an inode's children while
 deleting what is below them

Gtree::delete_inode transmuted the lifetime of a slice of the inode's
children and kept iterating over it while it recursed into them with an
exclusive reference to all of the inodes. Index into the children instead.
---
 src/gtree.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..c5600aa 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -1255,37 +1255,20 @@ impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
         L: Delete,
         BeforeDelete: FnMut(&L),
     {
-        let inode = self.inode_mut(inode);
+        *self.inode_mut(inode).len_mut() = 0;
 
-        *inode.len_mut() = 0;
-
-        // In both arms of the match we transmute the slices back into the same
-        // types to iterate over the inode/leaf indices and delete the
-        // inodes/leaves at the same time, which Rust's aliasing rules would
-        // prohibit.
-        //
-        // SAFETY: it's safe.
-
-        match inode.children() {
-            Either::Internal(inode_idxs) => {
-                let inode_idxs = unsafe {
-                    mem::transmute::<&[InodeIdx], &[InodeIdx]>(inode_idxs)
-                };
-                for &inode_idx in inode_idxs {
+        for child_idx in 0..self.inode(inode).num_children() {
+            match self.inode(inode).child(child_idx) {
+                Either::Internal(inode_idx) => {
                     self.delete_inode(inode_idx, before_delete);
-                }
-            },
+                },
 
-            Either::Leaf(leaf_idxs) => {
-                let leaf_idxs = unsafe {
-                    mem::transmute::<&[LeafIdx<L>], &[LeafIdx<L>]>(leaf_idxs)
-                };
-                for &leaf_idx in leaf_idxs {
+                Either::Leaf(leaf_idx) => {
                     let leaf = self.leaf_mut(leaf_idx);
                     before_delete(leaf);
                     leaf.delete();
-                }
-            },
+                },
+            }
         }
     }
 
-- 
2.43.0


From eb4136295ffd24137d8e0c736527e92fd47e80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:02 +0000
Subject: [PATCH 14/14] fix: join remote text typed at the end of the document
 to its run

A remote insertion that continues the run it is anchored to was appended to
it only if that run had a sibling to its right, so that everything typed after
the last leaf of an inode (in particular at the end of the document) became
one run per insertion at every other replica.
---
 src/run_tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index 1edcb7a..34bc5ba 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -763,11 +763,16 @@ impl RunTree {
             if run > *leaf {
                 prev_idx = idx;
             } else {
-                return self.insert_run_after_another(run, prev_idx);
+                break;
             }
         }
 
-        // If we get here we're inserting after the last run in the Gtree.
+        if prev_idx == anchor_idx
+            && self.gtree.leaf(anchor_idx).can_append(&run)
+        {
+            return self.append_run_to_another(run, anchor_idx);
+        }
+
         self.insert_run_after_another(run, prev_idx)
     }
 
-- 
2.43.0

