From 0dcdd6fbd1d7fe93f47b83575975977bc4233543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 01/47] fix: right-to-left exclusive ranges ending past the
 last key of the storage returned nothing

---
 grovedb-query/src/query_item/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 6525f2a..8f096c5 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -690,7 +690,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek(start)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeInclusive(range_inclusive) => {
@@ -718,7 +718,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek_to_first()
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeToInclusive(RangeToInclusive { end }) => {
@@ -755,7 +755,7 @@ impl QueryItem {
                     }
                     ().wrap_with_cost(cost)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeAfterToInclusive(range_inclusive) => {
@@ -778,6 +778,23 @@ impl QueryItem {
         }
     }
 
+    /// Positions the iterator on the last key strictly before `end`.
+    #[cfg(feature = "blockchain")]
+    fn seek_before<I: RawIterator>(iter: &mut I, end: &[u8]) -> CostContext<()> {
+        let mut cost = OperationCost::default();
+        iter.seek(end).unwrap_add_cost(&mut cost);
+        iter.prev().unwrap_add_cost(&mut cost);
+        if !iter.valid().unwrap_add_cost(&mut cost) {
+            // Seeking past the very last key of the storage invalidates the iterator, which
+            // can't be moved back from there, so approach `end` from the other side.
+            iter.seek_for_prev(end).unwrap_add_cost(&mut cost);
+            if iter.key().unwrap_add_cost(&mut cost) == Some(end) {
+                iter.prev().unwrap_add_cost(&mut cost);
+            }
+        }
+        ().wrap_with_cost(cost)
+    }
+
     /// Lexicographically compares two byte slices.
     pub fn compare(a: &[u8], b: &[u8]) -> cmp::Ordering {
         for (ai, bi) in a.iter().zip(b.iter()) {
-- 
2.43.0


From 64b6df786bfd59bfd43838d127f8efa46e6f145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 02/47] fix: deleting a tree must not look for subtrees among
 the entries of append trees

---
 grovedb/src/operations/auxiliary.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/auxiliary.rs b/grovedb/src/operations/auxiliary.rs
index 63512c5..d5d413d 100644
--- a/grovedb/src/operations/auxiliary.rs
+++ b/grovedb/src/operations/auxiliary.rs
@@ -186,7 +186,11 @@ impl GroveDb {
                 if value.is_any_tree() {
                     let mut sub_path = q.clone();
                     sub_path.push(key.to_vec());
-                    queue.push(sub_path.clone());
+                    // Entries of non-Merk data trees aren't elements, and
+                    // there are no subtrees to look for among them.
+                    if !value.uses_non_merk_data_storage() {
+                        queue.push(sub_path.clone());
+                    }
                     result.push(sub_path);
                 }
             }
-- 
2.43.0


From 760eb9a4525c06c7218b003ff46931251bf2bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 03/47] fix: batch replacing an element by one with flags of
 another length was refused

---
 merk/src/tree/just_in_time_value_update.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merk/src/tree/just_in_time_value_update.rs b/merk/src/tree/just_in_time_value_update.rs
index fd20267..e27d988 100644
--- a/merk/src/tree/just_in_time_value_update.rs
+++ b/merk/src/tree/just_in_time_value_update.rs
@@ -42,7 +42,7 @@ impl TreeNode {
             // todo: clean up clones
             let original_new_value = self.value_ref().clone();
 
-            let new_value_with_old_flags = if self.inner.kv.value_defined_cost.is_none() {
+            let mut new_value_with_old_flags = if self.inner.kv.value_defined_cost.is_none() {
                 // for items
                 get_temp_new_value_with_old_flags(&old_value, &original_new_value)?
             } else {
@@ -53,7 +53,7 @@ impl TreeNode {
             let (mut current_tree_plus_hook_size, mut storage_costs) = self
                 .kv_with_parent_hook_size_and_storage_cost_change_for_value(
                     old_specialized_cost,
-                    new_value_with_old_flags,
+                    new_value_with_old_flags.clone(),
                 )?;
 
             loop {
@@ -71,8 +71,17 @@ impl TreeNode {
                     self.value_mut_ref(),
                 )?;
                 if !flags_changed {
+                    if new_value_with_old_flags
+                        .is_some_and(|value| value.len() != self.value_ref().len())
+                    {
+                        // the new value is stored with its own flags after all
+                        storage_costs = self
+                            .kv_with_parent_hook_size_and_storage_cost(old_specialized_cost)?
+                            .1;
+                    }
                     break;
                 } else {
+                    new_value_with_old_flags = None;
                     self.inner.kv.value_defined_cost = value_defined_cost;
                     let after_update_tree_plus_hook_size =
                         self.value_encoding_length_with_parent_to_child_reference();
-- 
2.43.0


From 636a2724e3c08c33eb4ad966a232a2b4a0a11c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 04/47] fix: clearing the root subtree left its stored root key
 behind

---
 merk/src/merk/clear.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merk/src/merk/clear.rs b/merk/src/merk/clear.rs
index 136fef8..a597dba 100644
--- a/merk/src/merk/clear.rs
+++ b/merk/src/merk/clear.rs
@@ -1,7 +1,10 @@
-use grovedb_costs::{cost_return_on_error, CostResult, CostsExt, OperationCost};
+use grovedb_costs::{
+    cost_return_on_error, storage_cost::key_value_cost::KeyValueStorageCost, CostResult, CostsExt,
+    OperationCost,
+};
 use grovedb_storage::{Batch, RawIterator, StorageContext};
 
-use crate::{Error, Error::StorageError, Merk};
+use crate::{merk::defaults::ROOT_KEY_KEY, Error, Error::StorageError, Merk};
 
 impl<'db, S> Merk<S>
 where
@@ -26,11 +29,16 @@ where
             }
             iter.next().unwrap_add_cost(&mut cost);
         }
+        if self.merk_type.requires_root_storage_update() {
+            // empty tree, delete pointer to root
+            to_delete.delete_root(ROOT_KEY_KEY, Some(KeyValueStorageCost::default()));
+        }
         cost_return_on_error!(
             &mut cost,
             self.storage.commit_batch(to_delete).map_err(StorageError)
         );
         self.tree.set(None);
+        self.root_tree_key.set(None);
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From e7a002fc0542d287cc1883ee744346400926e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 05/47] fix: deleting a non-empty tree reopened its parent with
 the wrong type and root key handling

---
 grovedb/src/operations/delete/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7ea2184..b381a85 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -747,7 +747,7 @@ impl GroveDb {
             )
         );
         let uses_sum_tree = subtree_to_delete_from.tree_type;
-        if let Some(tree_type) = element.tree_type() {
+        if element.is_any_tree() {
             let subtree_merk_path = path.derive_owned_with_child(key);
             let subtree_merk_path_ref = SubtreePath::from(&subtree_merk_path);
 
@@ -844,16 +844,27 @@ impl GroveDb {
                     .get_transactional_storage_context(path.clone(), Some(batch), transaction)
                     .unwrap_add_cost(&mut cost);
 
-                let mut merk_to_delete_tree_from = cost_return_on_error!(
-                    &mut cost,
+                // The root Merk has to be opened as the base one, as otherwise the
+                // stored key of its root node would not follow the deletion.
+                let opened_merk = if path.is_root() {
+                    Merk::open_base(
+                        storage,
+                        uses_sum_tree,
+                        Some(&Element::value_defined_cost_for_serialized_value),
+                        grove_version,
+                    )
+                } else {
                     Merk::open_layered_with_root_key(
                         storage,
                         subtree_to_delete_from.root_key(),
-                        tree_type,
+                        uses_sum_tree,
                         Some(&Element::value_defined_cost_for_serialized_value),
                         grove_version,
                     )
-                    .map_err(|e| {
+                };
+                let mut merk_to_delete_tree_from = cost_return_on_error!(
+                    &mut cost,
+                    opened_merk.map_err(|e| {
                         Error::CorruptedData(format!(
                             "cannot open a subtree with given root key: {e}"
                         ))
-- 
2.43.0


From 42994b8ea711e4d8b3ad7a0341c6894fbb61dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 06/47] fix: clearing an append tree left the count and state
 root of its element behind

---
 grovedb/src/operations/delete/mod.rs | 69 +++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index b381a85..a20acd2 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -33,10 +33,11 @@ use grovedb_costs::{
 };
 use grovedb_merk::element::{
     costs::ElementCostExtensions, decode::ElementDecodeExtensions,
-    delete::ElementDeleteFromStorageExtensions, tree_type::ElementTreeTypeExtensions,
+    delete::ElementDeleteFromStorageExtensions, get::ElementFetchFromStorageExtensions,
+    insert::ElementInsertToStorageExtensions, tree_type::ElementTreeTypeExtensions,
 };
 #[cfg(feature = "minimal")]
-use grovedb_merk::{proofs::Query, KVIterator, MaybeTree};
+use grovedb_merk::{proofs::Query, tree::NULL_HASH, KVIterator, MaybeTree};
 #[cfg(feature = "minimal")]
 use grovedb_merk::{Error as MerkError, Merk, MerkOptions};
 use grovedb_path::SubtreePath;
@@ -261,6 +262,70 @@ impl GroveDb {
                 })
             );
 
+            // The parent element holds the entry count and commits to the state
+            // root of the tree, so it has to follow.
+            if let Some((parent_path, key)) = subtree_path.derive_parent() {
+                let mut parent_merk = cost_return_on_error!(
+                    &mut cost,
+                    self.open_transactional_merk_at_path(
+                        parent_path.clone(),
+                        tx.as_ref(),
+                        Some(&batch),
+                        grove_version,
+                    )
+                );
+                let element = cost_return_on_error_into!(
+                    &mut cost,
+                    Element::get(&parent_merk, key, true, grove_version)
+                );
+                let (cleared_element, state_root) = match element {
+                    Element::CommitmentTree(_, chunk_power, flags) => (
+                        Element::CommitmentTree(0, chunk_power, flags),
+                        grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                    ),
+                    Element::MmrTree(_, flags) => (Element::MmrTree(0, flags), NULL_HASH),
+                    Element::BulkAppendTree(_, chunk_power, flags) => {
+                        (Element::BulkAppendTree(0, chunk_power, flags), NULL_HASH)
+                    }
+                    Element::DenseAppendOnlyFixedSizeTree(_, height, flags) => (
+                        Element::DenseAppendOnlyFixedSizeTree(0, height, flags),
+                        NULL_HASH,
+                    ),
+                    _ => {
+                        return Err(Error::CorruptedData(
+                            "parent element of a non-merk data tree is not of its type"
+                                .to_string(),
+                        ))
+                        .wrap_with_cost(cost);
+                    }
+                };
+                cost_return_on_error_into!(
+                    &mut cost,
+                    cleared_element.insert_subtree(
+                        &mut parent_merk,
+                        key,
+                        state_root,
+                        None,
+                        grove_version,
+                    )
+                );
+                let mut merk_cache: HashMap<
+                    SubtreePath<B>,
+                    Merk<PrefixedRocksDbTransactionContext>,
+                > = HashMap::default();
+                merk_cache.insert(parent_path.clone(), parent_merk);
+                cost_return_on_error!(
+                    &mut cost,
+                    self.propagate_changes_with_transaction(
+                        merk_cache,
+                        parent_path,
+                        tx.as_ref(),
+                        &batch,
+                        grove_version,
+                    )
+                );
+            }
+
             cost_return_on_error!(
                 &mut cost,
                 self.db
-- 
2.43.0


From 17cc55109e7b5a345b670c6edc19a0962b75c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 07/47] fix: elements could be written under append trees,
 among their entries

---
 grovedb/src/batch/mod.rs             | 14 ++++++++++----
 grovedb/src/operations/insert/mod.rs |  9 +++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f01baaf..573aad1 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1782,10 +1782,16 @@ where
         let in_tree_type = {
             let merk = match self.merks.entry(path.to_vec()) {
                 HashMapEntry::Occupied(o) => o.into_mut(),
-                HashMapEntry::Vacant(v) => v.insert(cost_return_on_error!(
-                    &mut cost,
-                    (self.get_merk_fn)(path, false)
-                )),
+                HashMapEntry::Vacant(v) => {
+                    let merk = cost_return_on_error!(&mut cost, (self.get_merk_fn)(path, false));
+                    if merk.tree_type.uses_non_merk_data_storage() {
+                        return Err(Error::InvalidBatchOperation(
+                            "elements can't be changed under a non-merk data tree",
+                        ))
+                        .wrap_with_cost(cost);
+                    }
+                    v.insert(merk)
+                }
             };
             merk.tree_type
         };
diff --git a/grovedb/src/operations/insert/mod.rs b/grovedb/src/operations/insert/mod.rs
index 97bceb6..d3ebddb 100644
--- a/grovedb/src/operations/insert/mod.rs
+++ b/grovedb/src/operations/insert/mod.rs
@@ -201,6 +201,15 @@ impl GroveDb {
                 grove_version
             )
         );
+        if subtree_to_insert_into
+            .tree_type
+            .uses_non_merk_data_storage()
+        {
+            return Err(Error::InvalidInput(
+                "elements can't be inserted under a non-merk data tree",
+            ))
+            .wrap_with_cost(cost);
+        }
         // if we don't allow a tree override then we should check
 
         if options.checks_for_override() {
-- 
2.43.0


From 4401be0fba4133d3782500c0a6d5812410abb9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 08/47] fix: a failed read of a parent element was taken for a
 missing path

---
 grovedb/src/util/compat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/util/compat.rs b/grovedb/src/util/compat.rs
index 8312c67..d6012e8 100644
--- a/grovedb/src/util/compat.rs
+++ b/grovedb/src/util/compat.rs
@@ -49,7 +49,13 @@ where
         let element = cost_return_on_error!(
             &mut cost,
             Element::get_from_storage(&parent_storage, parent_key, grove_version)
-                .map_err(|e| C::parent_key_not_found(e.into(), parent_path, parent_key))
+                .map_err(|e| match e {
+                    // Only a missing parent means that there is no such path, a failed read
+                    // of it doesn't.
+                    grovedb_merk::Error::PathKeyNotFound(_) =>
+                        C::parent_key_not_found(e.into(), parent_path, parent_key),
+                    e => e.into(),
+                })
         );
         if let Some((root_key, tree_type)) = element.root_key_and_tree_type_owned() {
             Merk::open_layered_with_root_key(
-- 
2.43.0


From 9cb2410a72ed303d4425dfb8d98a1dbc4a8b65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 09/47] fix: a refreshed reference was not counted by its count
 tree

---
 grovedb/src/batch/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 573aad1..3f43936 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2093,7 +2093,12 @@ where
                         .wrap_with_cost(cost);
                     };
 
-                    let merk_feature_type = in_tree_type.empty_tree_feature_type();
+                    let merk_feature_type = cost_return_on_error_into!(
+                        &mut cost,
+                        element
+                            .get_feature_type(in_tree_type)
+                            .wrap_with_cost(OperationCost::default())
+                    );
 
                     let path_reference = cost_return_on_error_into!(
                         &mut cost,
-- 
2.43.0


From 4acc85ba6dfb646894321d34c876be778c850986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 10/47] fix: batch conditional insertion of a commitment tree
 ignored its condition

---
 grovedb/src/batch/mod.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 3f43936..98c0528 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1940,7 +1940,8 @@ where
                         | Element::ProvableCountSumTree(..)
                         | Element::MmrTree(..)
                         | Element::BulkAppendTree(..)
-                        | Element::DenseAppendOnlyFixedSizeTree(..) => {
+                        | Element::DenseAppendOnlyFixedSizeTree(..)
+                        | Element::CommitmentTree(..) => {
                             // Check existence for InsertIfNotExists on subtrees
                             if is_insert_if_not_exists
                                 || batch_apply_options.validate_insertion_does_not_override
@@ -1973,30 +1974,16 @@ where
                                     .get_feature_type(in_tree_type)
                                     .wrap_with_cost(OperationCost::default())
                             );
+                            let root_hash = if matches!(element, Element::CommitmentTree(..)) {
+                                grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+                            } else {
+                                NULL_HASH
+                            };
                             cost_return_on_error_into!(
                                 &mut cost,
                                 element.insert_subtree_into_batch_operations(
                                     key_info.get_key_clone(),
-                                    NULL_HASH,
-                                    false,
-                                    &mut batch_operations,
-                                    merk_feature_type,
-                                    grove_version,
-                                )
-                            );
-                        }
-                        Element::CommitmentTree(..) => {
-                            let merk_feature_type = cost_return_on_error_into!(
-                                &mut cost,
-                                element
-                                    .get_feature_type(in_tree_type)
-                                    .wrap_with_cost(OperationCost::default())
-                            );
-                            cost_return_on_error_into!(
-                                &mut cost,
-                                element.insert_subtree_into_batch_operations(
-                                    key_info.get_key_clone(),
-                                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                                    root_hash,
                                     false,
                                     &mut batch_operations,
                                     merk_feature_type,
-- 
2.43.0


From 15055117de61247cd6fa62b0550adf86c979d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 11/47] fix: keep buffered MMR nodes when a commit fails

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..766dcc2 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -96,14 +96,21 @@ impl<Store: MMRStoreReadOps> MMRBatch<Store> {
 
 impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
+    ///
+    /// If the store fails, the buffer is left as it was, so that its elements
+    /// stay readable and the commit can be repeated.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        for (pos, elems) in &self.memory_batch {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
                 return Err(e).wrap_with_cost(cost);
             }
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From c2dbe06a165e1925743b23d85a91e16348b1e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 12/47] fix: reject MMR proofs with too few or too many peak
 hashes

---
 grovedb-merkle-mountain-range/src/proof.rs | 24 +++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..86703b5 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -268,6 +268,11 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
 
     // special handle the only 1 leaf MMR
     if mmr_size == 1 && leaves.len() == 1 && leaves[0].0 == 0 {
+        if proof_iter.next().is_some() {
+            return Err(Error::InvalidProof(
+                "excess proof items after processing all peaks".into(),
+            ));
+        }
         return Ok(leaves.into_iter().map(|(_pos, item)| item).collect());
     }
     // ensure leaves are sorted and unique
@@ -276,8 +281,12 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     let peaks = get_peaks(mmr_size);
 
     let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    // whether the previous peak was taken from the proof
+    let mut previous_from_proof = false;
+    let mut missing_item = false;
     for peak_pos in peaks {
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
+        let from_proof = leaves.is_empty();
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
             // leaf is the peak
             leaves.remove(0).1
@@ -286,14 +295,16 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
             if let Some(peak_root) = proof_iter.next() {
                 peak_root.clone()
             } else {
-                // means that either all right peaks are bagged, or proof is corrupted
-                // so we break loop and check no items left
+                // means that either all right peaks are bagged into the previous item,
+                // or proof is corrupted so we break loop and check no items left
+                missing_item = !previous_from_proof;
                 break;
             }
         } else {
             calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
         };
         peaks_hashes.push(peak_root.clone());
+        previous_from_proof = from_proof;
     }
 
     // ensure nothing left in leaves
@@ -301,9 +312,12 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
 
-    // check rhs peaks
-    if let Some(rhs_peaks_hashes) = proof_iter.next() {
-        peaks_hashes.push(rhs_peaks_hashes.clone());
+    // a computed peak must not stand for the bagged hash of itself and all
+    // peaks to its right: that would place its leaves at wrong positions
+    if missing_item {
+        return Err(Error::InvalidProof(
+            "not enough proof items for the peaks".into(),
+        ));
     }
     // ensure nothing left in proof_iter
     if proof_iter.next().is_some() {
-- 
2.43.0


From 4615b51358e231c755ea706fb01d07f770d3f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 13/47] fix: a failed bulk append no longer leaves its value in
 the buffer

append() inserted into the dense buffer and then read the MMR root; when that
read failed the caller got an error while the buffer had already grown, so the
retry stored the value twice and the buffer no longer matched total_count.
---
 grovedb-bulk-append-tree/src/tree/append.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grovedb-bulk-append-tree/src/tree/append.rs b/grovedb-bulk-append-tree/src/tree/append.rs
index 5b7e566..4b539f9 100644
--- a/grovedb-bulk-append-tree/src/tree/append.rs
+++ b/grovedb-bulk-append-tree/src/tree/append.rs
@@ -55,6 +55,15 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         let mut hash_count: u32 = 0;
         let global_position = self.total_count;
 
+        // When the buffer still has room the MMR does not change. Read its root
+        // before touching the buffer, so that a failed read leaves the tree as
+        // it was and the append can be retried.
+        let unchanged_mmr_root = if self.dense_tree.count() < self.dense_tree.capacity() {
+            self.get_mmr_root()?
+        } else {
+            [0u8; 32]
+        };
+
         // 1. Try to insert into the dense tree buffer
         let try_result = self.dense_tree.try_insert(value).unwrap().map_err(|e| {
             BulkAppendError::StorageError(format!("dense tree insert failed: {}", e))
@@ -64,8 +73,7 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             Some((dense_root, _position)) => {
                 // Inserted successfully, no compaction needed
                 hash_count += self.dense_tree.count() as u32 * 2;
-                let root = self.get_mmr_root()?;
-                (false, root, dense_root)
+                (false, unchanged_mmr_root, dense_root)
             }
             None => {
                 // Dense tree is full — compact existing entries + new value.
-- 
2.43.0


From a564d86e13d499f19ab19ddb44b945fac7a30904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 14/47] fix: dense tree range queries on an empty tree select
 nothing

The inclusive ranges clamped their end to count-1 saturating at 0, so with
count 0 they selected position 0 and the proof failed instead of covering an
empty result.
---
 .../src/proof/mod.rs                                 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..40500d7 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -66,8 +66,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                let end_exclusive = end.saturating_add(1).min(count);
+                for p in start..end_exclusive {
                     positions.insert(p);
                 }
             }
@@ -90,8 +90,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                let end_exclusive = end.saturating_add(1).min(count);
+                for p in 0..end_exclusive {
                     positions.insert(p);
                 }
             }
@@ -111,8 +111,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeAfterToInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start.saturating_add(1)..=clamped_end {
+                let end_exclusive = end.saturating_add(1).min(count);
+                for p in start.saturating_add(1)..end_exclusive {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From d5323c2228eed339914488905f4f912f94e855dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 15/47] fix: adding a basic removal to a sectioned one kept no
 bytes of the default identifier

StorageRemovedBytes::add took the default identifier's section map out of the
result and did not put it back, so both the removal being added and the bytes
already recorded there were lost. AddAssign was right.
---
 costs/src/storage_cost/removal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..e524fef 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
-- 
2.43.0


From 0a3f86ac8a666459cc239acf18b6381d4a1998e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 16/47] fix: adding a sectioned removal in place to a basic one
 dropped the default identifier's sections

---
 costs/src/storage_cost/removal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index e524fef..ac0f687 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -154,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0


From 7e85d69c84c2022e51a91d0e4e9ecfb8fb666ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 17/47] fix: overwriting an element of fixed cost reported no
 storage change

An item or reference written over a sum item kept the fixed cost of the
element it replaced, so that neither added nor removed bytes were reported.
---
 merk/src/tree/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merk/src/tree/mod.rs b/merk/src/tree/mod.rs
index 37e04e2..002346c 100644
--- a/merk/src/tree/mod.rs
+++ b/merk/src/tree/mod.rs
@@ -954,6 +954,8 @@ impl TreeNode {
         let mut cost = OperationCost::default();
 
         self.inner.kv = self.inner.kv.put_value_no_update_of_hashes(value);
+        // the replaced value may have had a cost of its own
+        self.inner.kv.value_defined_cost = None;
         self.inner.kv.feature_type = feature_type;
 
         if self.old_value.is_some() {
@@ -1064,6 +1066,8 @@ impl TreeNode {
         let mut cost = OperationCost::default();
 
         self.inner.kv = self.inner.kv.put_value_no_update_of_hashes(value);
+        // the replaced value may have had a cost of its own
+        self.inner.kv.value_defined_cost = None;
         self.inner.kv.feature_type = feature_type;
 
         if self.old_value.is_some() {
-- 
2.43.0


From d1004bdf2be4133a30f7014e25eb136c8601f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 18/47] fix: proof verification did not count an empty subtree
 against the limit

---
 grovedb/src/operations/proof/verify.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..a375beb 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -714,6 +714,16 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else {
+                        // An empty tree that is not a result itself: the
+                        // prover counts it against the limit, so the layers
+                        // that follow only line up if it is counted here too.
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
@@ -1664,6 +1674,16 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else {
+                        // An empty tree that is not a result itself: the
+                        // prover counts it against the limit, so the layers
+                        // that follow only line up if it is counted here too.
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 482abdd0a301979121ff86718935f96ad0d9b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 19/47] fix: a conditional branch without a subquery was proved
 with the default subquery

---
 grovedb/src/query/mod.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..8ea5108 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -612,14 +612,22 @@ impl fmt::Display for HasSubquery<'_> {
     }
 }
 
+/// Whether a branch leads anywhere below a key
+fn branch_has_subquery(branch: &SubqueryBranch) -> bool {
+    branch.subquery.is_some() || branch.subquery_path.is_some()
+}
+
 impl HasSubquery<'_> {
     /// Checks to see if we have a subquery on a specific key
     pub fn has_subquery_on_key(&self, key: &[u8]) -> bool {
         match self {
             HasSubquery::NoSubquery => false,
+            // the first conditional branch that matches decides, and it may
+            // ask for nothing below the key
             HasSubquery::Conditionally(conditionally) => conditionally
-                .keys()
-                .any(|query_item| query_item.contains(key)),
+                .iter()
+                .find(|(query_item, _)| query_item.contains(key))
+                .is_some_and(|(_, branch)| branch_has_subquery(branch)),
             HasSubquery::Always => true,
         }
     }
@@ -696,10 +704,19 @@ impl<'a> SinglePathSubquery<'a> {
     }
 
     pub fn from_query(query: &Query) -> SinglePathSubquery<'_> {
-        let has_subquery = if query.default_subquery_branch.subquery.is_some()
-            || query.default_subquery_branch.subquery_path.is_some()
-        {
-            HasSubquery::Always
+        let has_subquery = if branch_has_subquery(&query.default_subquery_branch) {
+            match query.conditional_subquery_branches.as_ref() {
+                // a conditional branch without a subquery takes precedence over
+                // the default one
+                Some(conditional) if !conditional.values().all(branch_has_subquery) => {
+                    let mut branches = conditional.clone();
+                    branches
+                        .entry(QueryItem::RangeFull(..))
+                        .or_insert_with(|| query.default_subquery_branch.clone());
+                    HasSubquery::Conditionally(Cow::Owned(branches))
+                }
+                _ => HasSubquery::Always,
+            }
         } else if let Some(conditional) = query.conditional_subquery_branches.as_ref() {
             HasSubquery::Conditionally(Cow::Borrowed(conditional))
         } else {
-- 
2.43.0


From 69894057b08fa7f6ec96b260edb01db5dc267621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 20/47] fix: a key on the boundary of the range before it was
 not counted against the limit of a proof

---
 merk/src/proofs/query/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index 22352d5..af25523 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -257,7 +257,7 @@ where
                     left_proof_items = ProofItems::default();
                 }
                 found_item = false;
-            } else if found_item && !on_boundary_not_found {
+            } else if found_item {
                 // if limit is not zero, reserve a limit slot for the current node
                 // before generating proof for the right subtree
                 new_limit = Some(current_limit - 1);
-- 
2.43.0


From b38060468bf7690c50a90ef383f97791100359f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 21/47] fix: references in a provable count sum tree could not
 be proved

---
 grovedb/src/operations/proof/generate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 2f3c8cc..0068527 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -319,7 +319,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
@@ -1033,7 +1034,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
-- 
2.43.0


From 239cac508a805a8afc763cc768438f67038b2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 22/47] fix: a bulk append tree proof counted values the query
 skips against the limit

---
 grovedb/src/operations/proof/generate.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 0068527..4c8afd1 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1553,10 +1553,17 @@ impl GroveDb {
                 .map_err(|e| Error::CorruptedData(format!("{}", e)))
         );
 
-        // Update limit: count individual values in the queried range
+        // Update limit: count the values the verifier will report, which are
+        // those selected by the query items, not all of the bounding range
         if let Some(limit) = overall_limit.as_mut() {
-            let count = (end.min(total_count) - start).min(u16::MAX as u64) as u16;
-            *limit = limit.saturating_sub(count);
+            let count = (start..end.min(total_count))
+                .filter(|position| {
+                    let key = position.to_be_bytes();
+                    sub_query.items.iter().any(|item| item.contains(&key))
+                })
+                .take(*limit as usize)
+                .count() as u16;
+            *limit -= count;
         }
 
         let proof_bytes = cost_return_on_error_no_add!(
-- 
2.43.0


From e32479e8e5e578d36f944f418bd0b5567a035d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 23/47] fix: a commitment tree proof took a failed read of the
 frontier for an empty one

---
 grovedb/src/operations/proof/generate.rs | 25 ++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 4c8afd1..22b44f9 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1607,16 +1607,21 @@ impl GroveDb {
             .get_transactional_storage_context(storage_path, None, tx)
             .unwrap_add_cost(&mut cost);
 
-        let sinsemilla_root = match storage_ctx.get(COMMITMENT_TREE_DATA_KEY).value {
-            Ok(Some(frontier_bytes)) => {
-                match grovedb_commitment_tree::CommitmentFrontier::deserialize(
-                    frontier_bytes.as_ref(),
-                ) {
-                    Ok(frontier) => frontier.root_hash(),
-                    Err(_) => grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT,
-                }
-            }
-            _ => grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT,
+        let frontier_bytes = cost_return_on_error!(
+            &mut cost,
+            storage_ctx
+                .get(COMMITMENT_TREE_DATA_KEY)
+                .map_err(Error::from)
+        );
+        let sinsemilla_root = match frontier_bytes {
+            Some(bytes) => cost_return_on_error_no_add!(
+                cost,
+                grovedb_commitment_tree::CommitmentFrontier::deserialize(bytes.as_ref()).map_err(
+                    |e| Error::CorruptedData(format!("failed to load the frontier: {}", e))
+                )
+            )
+            .root_hash(),
+            None => grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT,
         };
         drop(storage_ctx);
 
-- 
2.43.0


From 1b2c795e9d43b2b2c8831b76e657551c61ddb87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 24/47] fix: proofs were refused for a boundary key after the
 limit

---
 merk/src/proofs/query/verify.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..eb77682 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -157,6 +157,13 @@ impl QueryProofVerify for Query {
                                     value_hash: CryptoHash,
                                     child_hash_verified: bool|
              -> Result<_, Error> {
+                // once the limit is reached there is nothing left to prove, the
+                // key of a boundary that comes later does not have to follow a
+                // proven one
+                if current_limit == Some(0) && value.is_none() {
+                    return Ok(());
+                }
+
                 while let Some(item) = query.peek() {
                     // get next item in query
                     let query_item = *item;
-- 
2.43.0


From 64f0bb01b5ffe9d68eae0ec8789aef257fa9078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 25/47] fix: a range that ends before it starts broke the proof
 of the ranges around it

---
 grovedb-query/src/proof_items.rs    |  3 +++
 grovedb-query/src/query_item/mod.rs | 12 ++++++++++++
 merk/src/proofs/query/verify.rs     |  6 +++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/proof_items.rs b/grovedb-query/src/proof_items.rs
index 530ad1e..bd67067 100644
--- a/grovedb-query/src/proof_items.rs
+++ b/grovedb-query/src/proof_items.rs
@@ -48,6 +48,9 @@ impl<'a> ProofItems<'a> {
                 QueryItem::Key(key) => {
                     key_query_items.insert(key);
                 }
+                // A range that ends before it starts selects nothing, and its bounds
+                // need no proof
+                query_item if query_item.is_empty_range() => {}
                 query_item => {
                     // These are all ranges
                     range_query_items.push(
diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 8f096c5..aadb7c4 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -560,6 +560,18 @@ impl QueryItem {
         )
     }
 
+    /// Returns `true` if this query item is a range that ends before any key can
+    /// be in it.
+    pub fn is_empty_range(&self) -> bool {
+        match self {
+            QueryItem::Range(range) | QueryItem::RangeAfterTo(range) => range.start >= range.end,
+            QueryItem::RangeInclusive(range) => range.start() > range.end(),
+            QueryItem::RangeAfterToInclusive(range) => range.start() >= range.end(),
+            QueryItem::RangeTo(range) => range.end.is_empty(),
+            _ => false,
+        }
+    }
+
     /// Returns `true` if this query item matches exactly one key.
     pub const fn is_single(&self) -> bool {
         matches!(self, QueryItem::Key(_))
diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index eb77682..6d37d32 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -144,7 +144,11 @@ impl QueryProofVerify for Query {
 
         let mut output = Vec::with_capacity(self.len());
         let mut last_push = None;
-        let mut query = self.directional_iter(left_to_right).peekable();
+        // ranges that end before they start select nothing: they are not proven
+        let mut query = self
+            .directional_iter(left_to_right)
+            .filter(|query_item| !query_item.is_empty_range())
+            .peekable();
         let mut in_range = false;
         let original_limit = limit;
         let mut current_limit = limit;
-- 
2.43.0


From 58b2641fff54dd9a90d4c08f5a6fd3e698f13f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 26/47] fix: a proof could invent nodes below a hash node

---
 merk/src/proofs/tree.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..84388fb 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -517,6 +517,17 @@ where
             .ok_or_else(|| Error::InvalidProofError("Stack underflow".to_string()))
     }
 
+    // a hash stands for everything below it: nothing that is told about nodes
+    // below it is covered by the root hash
+    fn check_not_below_hash(parent: &Tree, child: &Tree) -> Result<(), Error> {
+        if matches!(parent.node, Node::Hash(_)) && !matches!(child.node, Node::Hash(_)) {
+            return Err(Error::InvalidProofError(
+                "Proof attaches a node below a hash node".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     for op in ops {
         op_count += 1;
         if op_count > MAX_PROOF_OPS {
@@ -532,6 +543,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_not_below_hash(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -550,6 +562,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_not_below_hash(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -568,6 +581,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_not_below_hash(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -586,6 +600,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_not_below_hash(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
-- 
2.43.0


From f4cf7aa2d19b84003e007bf70e1a57075b14bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 27/47] fix: a proof could hide elements by running against the
 direction of its query

---
 merk/src/proofs/query/verify.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 6d37d32..5171f99 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -155,7 +155,21 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // the order of the nodes is what shows that none is left out, so all
+        // of them have to come in the direction of the query
+        let ops = decoder.by_ref().map(|op| match op {
+            Ok(Op::Push(_) | Op::Parent | Op::Child) if !left_to_right => Err(
+                Error::InvalidProofError("Proof does not run right to left".to_string()),
+            ),
+            Ok(Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted) if left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Proof does not run left to right".to_string(),
+                ))
+            }
+            op => op,
+        });
+
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From 06a8ed24db9d417a868e748e999b9e3658f6bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 28/47] fix: a length in a malformed element was allocated
 before it was checked

---
 grovedb-element/src/element/serialize.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..aa5e1cd 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -34,7 +34,18 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
+        // A length that promises more than there is would be allocated before
+        // the end of the input is found, so what may be claimed is bounded by
+        // a multiple of the input.
+        match bytes.len() {
+            0..=0xffff => Self::decode_within::<{ 1 << 22 }>(bytes),
+            0x1_0000..=0xff_ffff => Self::decode_within::<{ 1 << 30 }>(bytes),
+            _ => Self::decode_within::<{ u32::MAX as usize }>(bytes),
+        }
+    }
+
+    fn decode_within<const LIMIT: usize>(bytes: &[u8]) -> Result<Self, ElementError> {
+        let config = config::standard().with_big_endian().with_limit::<LIMIT>();
         Ok(bincode::decode_from_slice(bytes, config)
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
-- 
2.43.0


From 87e33d480ce5cee41fd8fc4a91667993bc989c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 29/47] fix: the bytes of an append-only tree in a proof were
 not checked against any hash

---
 grovedb/src/lib.rs                       |  2 +-
 grovedb/src/operations/proof/generate.rs | 62 ++++++++++++++++++++----
 grovedb/src/operations/proof/verify.rs   |  8 +--
 3 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/grovedb/src/lib.rs b/grovedb/src/lib.rs
index 7c4f30c..e7c21e9 100644
--- a/grovedb/src/lib.rs
+++ b/grovedb/src/lib.rs
@@ -1115,7 +1115,7 @@ impl GroveDb {
     /// Compute the child hash for a non-Merk tree element by reconstructing
     /// its tree from storage and computing the state root.
     /// Falls back to `merk_root_hash` on any error or for standard Merk trees.
-    fn compute_non_merk_child_hash<'b, B: AsRef<[u8]>>(
+    pub(crate) fn compute_non_merk_child_hash<'b, B: AsRef<[u8]>>(
         &self,
         element: &Element,
         subtree_path: SubtreePath<'b, B>,
diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 22b44f9..284bd75 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -11,7 +11,7 @@ use grovedb_costs::{
 use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
 use grovedb_merk::{
     proofs::{encode_into, query::QueryItem, Node, Op},
-    tree::{combine_hash, value_hash},
+    tree::{combine_hash, value_hash, NULL_HASH},
     Merk, ProofWithoutEncodingResult, TreeFeatureType,
 };
 use grovedb_merkle_mountain_range::MmrTreeProof;
@@ -1255,13 +1255,56 @@ impl GroveDb {
                                 lower_layers.insert(key.clone(), layer_proof);
                             }
 
-                            // MmrTree/BulkAppendTree without subquery (query targets the tree
-                            // itself)
-                            Ok(Element::MmrTree(..))
-                            | Ok(Element::BulkAppendTree(..))
-                            | Ok(Element::DenseAppendOnlyFixedSizeTree(..))
-                                if !done_with_results =>
-                            {
+                            // Append-only tree without subquery (query targets the tree
+                            // itself): inject the root of what was appended for
+                            // combine_hash verification
+                            Ok(
+                                append_tree @ (Element::MmrTree(..)
+                                | Element::BulkAppendTree(..)
+                                | Element::DenseAppendOnlyFixedSizeTree(..)
+                                | Element::CommitmentTree(..)),
+                            ) if !done_with_results => {
+                                let mut child_path = path.clone();
+                                child_path.push(key.as_slice());
+                                let child_root_hash = self.compute_non_merk_child_hash(
+                                    &append_tree,
+                                    child_path.as_slice().into(),
+                                    &tx,
+                                    NULL_HASH,
+                                );
+                                let vh = combine_hash(
+                                    &value_hash(value).unwrap_add_cost(&mut cost),
+                                    &child_root_hash,
+                                )
+                                .unwrap_add_cost(&mut cost);
+                                let key_owned = key.to_owned();
+                                let value_owned = value.to_owned();
+                                let ft = match node {
+                                    Node::KVValueHashFeatureType(_, _, node_vh, ft)
+                                        if *node_vh == vh =>
+                                    {
+                                        *ft
+                                    }
+                                    Node::KVValueHash(_, _, node_vh) if *node_vh == vh => {
+                                        TreeFeatureType::BasicMerkNode
+                                    }
+                                    _ => {
+                                        return Err(Error::CorruptedData(format!(
+                                            "failed to compute the root of the append-only tree \
+                                             at {}",
+                                            hex_to_ascii(&key_owned)
+                                        )))
+                                        .wrap_with_cost(cost);
+                                    }
+                                };
+                                *node = Node::KVValueHashFeatureTypeWithChildHash(
+                                    key_owned,
+                                    value_owned,
+                                    vh,
+                                    ft,
+                                    child_root_hash,
+                                );
+
                                 if let Some(limit) = overall_limit.as_mut() {
                                     *limit -= 1;
                                 }
@@ -1321,7 +1364,7 @@ impl GroveDb {
                                 }
                                 has_a_result_at_level |= true;
                             }
-                            // Empty trees and CommitmentTree without subquery
+                            // Empty trees
                             Ok(Element::Tree(None, _))
                             | Ok(Element::SumTree(None, ..))
                             | Ok(Element::BigSumTree(None, ..))
@@ -1329,7 +1372,6 @@ impl GroveDb {
                             | Ok(Element::ProvableCountTree(None, ..))
                             | Ok(Element::CountSumTree(None, ..))
                             | Ok(Element::ProvableCountSumTree(None, ..))
-                            | Ok(Element::CommitmentTree(..))
                                 if !done_with_results =>
                             {
                                 if let Some(limit) = overall_limit.as_mut() {
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index a375beb..6b13bb9 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -678,10 +678,10 @@ impl GroveDb {
                         // child_hash) == value_hash. If child_hash_verified is
                         // false, an attacker may have downgraded the node type
                         // to hide child hash verification.
-                        // Non-Merk trees (MmrTree, BulkAppendTree, etc.) are
-                        // excluded — they use different proof structures.
-                        if element.is_non_empty_merk_tree() && !proved_key_value.child_hash_verified
-                        {
+                        // The same goes for non-Merk trees (MmrTree,
+                        // BulkAppendTree, etc.), whose child hash is the root
+                        // of what was appended.
+                        if element.is_non_empty_tree() && !proved_key_value.child_hash_verified {
                             return Err(Error::InvalidProof(
                                 query.clone(),
                                 format!(
-- 
2.43.0


From d24831d31937994cbda66068d59d42a4693bb8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 30/47] fix: a tree that is a result itself was not checked
 against the layer below it, and had the wrong path

---
 grovedb/src/operations/proof/verify.rs | 44 ++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 6b13bb9..275d054 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -504,10 +504,29 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
+                                    // Query targets the tree itself, not its
+                                    // contents, which the proof has for
+                                    // another query. They are what shows that
+                                    // the bytes of the tree are right.
+                                    let lower_hash = Self::merk_layer_root(lower_layer, query)?;
+                                    if hash
+                                        != combine_hash(
+                                            value_hash(value_bytes).value(),
+                                            &lower_hash,
+                                        )
+                                        .value()
+                                    {
+                                        return Err(Error::InvalidProof(
+                                            query.clone(),
+                                            format!(
+                                                "V1 mismatch in lower layer hash at key {}",
+                                                hex::encode(key)
+                                            ),
+                                        ));
+                                    }
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     result.push(
@@ -748,6 +767,27 @@ impl GroveDb {
         Ok(root_hash)
     }
 
+    /// The root hash of a Merk layer, whatever it is a proof of.
+    fn merk_layer_root(layer: &LayerProof, query: &PathQuery) -> Result<CryptoHash, Error> {
+        let ProofBytes::Merk(bytes) = &layer.merk_proof else {
+            return Err(Error::InvalidProof(
+                query.clone(),
+                "expected a Merk proof below a tree that is a result itself".to_string(),
+            ));
+        };
+        let mut decoder = Decoder::new(bytes);
+        let tree = execute(decoder.by_ref(), true, |_| Ok(()))
+            .unwrap()
+            .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
+        if decoder.remaining_bytes() > 0 {
+            return Err(Error::InvalidProof(
+                query.clone(),
+                "layer has unconsumed trailing bytes".to_string(),
+            ));
+        }
+        Ok(tree.hash().unwrap())
+    }
+
     /// Verify an MMR lower layer proof and add results.
     /// Returns the computed MMR root hash, which the caller uses as the
     /// child hash for Merk authentication (`combine_hash(value_hash ||
-- 
2.43.0


From 130893fb7061efc92d31bc29e44f51dfdc54c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 31/47] fix: a proof could pass off elements as references or
 as empty trees

---
 grovedb/src/operations/proof/verify.rs | 65 +++++++++++++++-----------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 275d054..ad4353b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,45 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // A reference is proven by what it leads to. The bytes of
+                    // one that is left as it is are not part of any hash that
+                    // is checked here.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 proof has an unresolved reference at key {}",
+                                hex::encode(key)
+                            ),
+                        ));
+                    }
+
+                    // For empty trees (no lower layer proof), verify that the
+                    // value_hash matches combine_hash(H(value), NULL_HASH).
+                    // Without this check, an attacker could swap tree types
+                    // (e.g. SumTree→Tree) or pass off any other element as an
+                    // empty tree in KVValueHash nodes without breaking the merk
+                    // proof, since the value bytes are not part of the
+                    // KVValueHash tree hash computation.
+                    if element.is_any_tree() && !element.is_non_empty_tree() {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "V1 empty tree value hash mismatch at key {}: \
+                                     expected {}, got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -664,32 +703,6 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // For non-empty Merk trees without a subquery (no
                         // lower layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
-- 
2.43.0


From c04918cee8afd1f32a39100a6332b5d35334aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 32/47] fix: intersect_many_ordered reports what only their
 items cover

---
 grovedb-query/src/query_item/intersect.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query_item/intersect.rs b/grovedb-query/src/query_item/intersect.rs
index 1153e3a..90b56ec 100644
--- a/grovedb-query/src/query_item/intersect.rs
+++ b/grovedb-query/src/query_item/intersect.rs
@@ -670,13 +670,15 @@ impl QueryItem {
         theirs: Vec<Self>,
     ) -> QueryItemManyIntersectionResult {
         let mut result = QueryItemManyIntersectionResult::default();
+        // what none of our items so far covers
+        let mut their_items = theirs;
         for our_item in ours.drain(..) {
             // We create an intersection result for this one item
             let mut one_item_pair_intersections = QueryItemManyIntersectionResult::default();
             // We add our item
             // In the end the item might be split up
             one_item_pair_intersections.push_ours(our_item);
-            for their_item in theirs.clone() {
+            for their_item in their_items {
                 // We take the vector of our item
                 // It might be empty if it has already been completely consumed
                 // Meaning that all the item was inside of their items
@@ -708,8 +710,12 @@ impl QueryItem {
                     one_item_pair_intersections.push_theirs(their_item)
                 }
             }
+            their_items = one_item_pair_intersections.theirs.take().unwrap_or_default();
             result.merge_in(one_item_pair_intersections)
         }
+        for their_item in their_items {
+            result.push_theirs(their_item);
+        }
         result
     }
 }
-- 
2.43.0


From fd5cf14d7bb0a9a43e726fdd6d8a1834bbc77da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 33/47] fix: terminal keys of conditional branches without a
 subquery

---
 grovedb-query/src/query.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..901c521 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -390,7 +390,14 @@ impl Query {
                              {max_results}, current length is {current_len}",
                         )));
                     }
-                    already_added_keys.insert(key.clone());
+                    if !self.items.iter().any(|item| item.contains(&key)) {
+                        // the branch is for a key the query does not select
+                        continue;
+                    }
+                    if !already_added_keys.insert(key.clone()) {
+                        // an earlier conditional subquery applies to this key
+                        continue;
+                    }
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
@@ -442,6 +449,17 @@ impl Query {
                             subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
                         added += added_here;
                         current_len += added_here;
+                    } else {
+                        // neither: the key itself is the terminal key
+                        if current_len == max_results {
+                            return Err(Error::RequestAmountExceeded(format!(
+                                "terminal keys limit exceeded without subquery or subquery path, \
+                                 set max is {max_results}, current length is {current_len}",
+                            )));
+                        }
+                        result.push((path, key));
+                        added += 1;
+                        current_len += 1;
                     }
                 }
             }
-- 
2.43.0


From be37f66a7532b26b6d4a6c9e0a567d30e3a4e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 34/47] fix: merging queries keeps the branch of each part for
 its own keys

---
 grovedb-query/src/merge.rs | 542 +++++++++----------------------------
 grovedb/src/query/mod.rs   |   5 +-
 2 files changed, 129 insertions(+), 418 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..7df54d7 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -1,239 +1,68 @@
 use indexmap::IndexMap;
 
-use crate::{
-    common_path::CommonPathResult, query_item::QueryItem, Query, QueryItemIntersectionResult,
-    SubqueryBranch,
-};
+use crate::{common_path::CommonPathResult, query_item::QueryItem, Query, SubqueryBranch};
 
 impl SubqueryBranch {
-    fn merge_subquery(
-        &self,
-        other_default_branch_subquery: Option<Box<Query>>,
-    ) -> Option<Box<Query>> {
-        match (&self.subquery, other_default_branch_subquery) {
-            (None, None) => None,
-            (Some(subquery), None) => Some(subquery.clone()),
-            (None, Some(subquery)) => Some(subquery),
-            (Some(subquery), Some(other_subquery)) => {
-                let mut merged_subquery = subquery.clone();
-                merged_subquery.merge_with(*other_subquery);
-                Some(merged_subquery)
-            }
+    fn is_empty(&self) -> bool {
+        self.subquery_path.is_none() && self.subquery.is_none()
+    }
+
+    /// What is left of the branch once the first `depth` keys of its path have
+    /// been followed. `None` if the tree found there is itself the result.
+    fn query_below(&self, depth: usize) -> Option<Query> {
+        let mut path = self
+            .subquery_path
+            .iter()
+            .flatten()
+            .skip(depth)
+            .cloned()
+            .collect::<Vec<_>>();
+        if path.is_empty() {
+            return self.subquery.as_deref().cloned();
         }
+        let key = path.remove(0);
+        let mut query = Query::new_single_key(key.clone());
+        query.merge_conditional_boxed_subquery(
+            QueryItem::Key(key),
+            SubqueryBranch {
+                subquery_path: if path.is_empty() { None } else { Some(path) },
+                subquery: self.subquery.clone(),
+            },
+        );
+        Some(query)
     }
 
     /// Merges two subquery branches, combining their subquery paths and
     /// subqueries. When paths differ, creates conditional subqueries to
-    /// preserve both branches.
+    /// preserve both branches. Where one of them selects a tree and the other
+    /// one what is in it, the latter is kept.
     pub fn merge(&self, other: &Self) -> Self {
-        match (&self.subquery_path, &other.subquery_path) {
-            (None, None) => {
-                // they both just have subqueries without paths
-                let subquery = self.merge_subquery(other.subquery.clone());
-                SubqueryBranch {
-                    subquery_path: None,
-                    subquery,
-                }
-            }
-            (Some(our_subquery_path), Some(their_subquery_path)) => {
-                // They both have subquery paths
-
-                if our_subquery_path.eq(their_subquery_path) {
-                    // The subquery paths are the same
-                    // We just need to merge the subqueries together
-                    let subquery = self.merge_subquery(other.subquery.clone());
-                    SubqueryBranch {
-                        subquery_path: Some(our_subquery_path.clone()),
-                        subquery,
-                    }
-                } else {
-                    // We need to find the common path between the two subqueries
-                    let CommonPathResult {
-                        common_path,
-                        mut left_path_leftovers,
-                        mut right_path_leftovers,
-                    } = CommonPathResult::from_paths(our_subquery_path, their_subquery_path);
-
-                    let subquery_path = if common_path.is_empty() {
-                        // There is no common path
-                        // We set the subquery path to be None
-                        None
-                    } else {
-                        // There is a common path
-                        // We can use this common path as a common root
-                        Some(common_path)
-                    };
-
-                    if !left_path_leftovers.is_empty() && !right_path_leftovers.is_empty() {
-                        // Both left and right split but still have paths below them
-                        // We take the top element from the left path leftovers and add a
-                        // conditional subquery for each key
-
-                        // We need to create a new subquery that will hold the conditional
-                        // subqueries
-                        let mut merged_query = Query::new();
-
-                        // The key is also removed from the path as it is no needed in the subquery
-                        let left_top_key = left_path_leftovers.remove(0);
-                        let maybe_left_path_leftovers = if left_path_leftovers.is_empty() {
-                            None
-                        } else {
-                            Some(left_path_leftovers)
-                        };
-                        merged_query.insert_key(left_top_key.clone());
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(left_top_key),
-                            SubqueryBranch {
-                                subquery_path: maybe_left_path_leftovers,
-                                subquery: self.subquery.clone(),
-                            },
-                        );
-                        let right_top_key = right_path_leftovers.remove(0);
-                        let maybe_right_path_leftovers = if right_path_leftovers.is_empty() {
-                            None
-                        } else {
-                            Some(right_path_leftovers)
-                        };
-
-                        merged_query.insert_key(right_top_key.clone());
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(right_top_key),
-                            SubqueryBranch {
-                                subquery_path: maybe_right_path_leftovers,
-                                subquery: other.subquery.clone(),
-                            },
-                        );
-                        SubqueryBranch {
-                            subquery_path,
-                            subquery: Some(Box::new(merged_query)),
-                        }
-                    } else if right_path_leftovers.is_empty() {
-                        // this means our subquery path was longer
-                        // which means we need to set the default to the right (other)
-                        let mut merged_query = other.subquery.clone().unwrap_or_default();
-                        let first_key = left_path_leftovers.remove(0);
-                        let maybe_left_path_leftovers = if left_path_leftovers.is_empty() {
-                            None
-                        } else {
-                            Some(left_path_leftovers)
-                        };
-
-                        merged_query.insert_key(first_key.clone());
-                        // our subquery stays the same as we didn't change level
-                        // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(first_key),
-                            SubqueryBranch {
-                                subquery_path: maybe_left_path_leftovers,
-                                subquery: self.subquery.clone(),
-                            },
-                        );
-                        SubqueryBranch {
-                            subquery_path,
-                            subquery: Some(merged_query),
-                        }
-                    } else if left_path_leftovers.is_empty() {
-                        let mut merged_query = self.subquery.clone().unwrap_or_default();
-                        // this means our subquery path shorter
-                        // we should keep our subquery
-                        let other_first = right_path_leftovers.remove(0);
-
-                        let maybe_right_path_leftovers = if right_path_leftovers.is_empty() {
-                            None
-                        } else {
-                            Some(right_path_leftovers)
-                        };
-                        merged_query.insert_key(other_first.clone());
-                        // our subquery stays the same as we didn't change level
-                        // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(other_first),
-                            SubqueryBranch {
-                                subquery_path: maybe_right_path_leftovers,
-                                subquery: other.subquery.clone(),
-                            },
-                        );
-                        SubqueryBranch {
-                            subquery_path,
-                            subquery: Some(merged_query),
-                        }
-                    } else {
-                        unreachable!("Unreachable as both paths being equal already covered");
-                    }
-                }
-            }
-            (Some(our_subquery_path), None) => {
-                // Ours has a subquery path, theirs does not.
-                // We set the subquery path to None
-
-                let mut our_subquery_path = our_subquery_path.clone();
-
-                // take their subquery as it will be on a topmost layer
-                let mut merged_subquery = other.subquery.clone().unwrap_or_default();
-
-                // We need to add a conditional subquery for ours
-
-                let our_top_key = our_subquery_path.remove(0);
-
-                merged_subquery.insert_key(our_top_key.clone());
-
-                let maybe_our_subquery_path = if our_subquery_path.is_empty() {
-                    None
-                } else {
-                    Some(our_subquery_path)
-                };
-                // our subquery stays the same as we didn't change level
-                // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
-                    // there are no conditional subquery branches yes
-                    QueryItem::Key(our_top_key),
-                    SubqueryBranch {
-                        subquery_path: maybe_our_subquery_path,
-                        subquery: self.subquery.clone(),
-                    },
-                );
-
-                SubqueryBranch {
-                    subquery_path: None,
-                    subquery: Some(merged_subquery),
-                }
-            }
-            (None, Some(their_subquery_path)) => {
-                // They have a subquery path, we does not.
-                // We set the subquery path to None
-
-                let mut their_subquery_path = their_subquery_path.clone();
-
-                // take our subquery as it will be on a topmost layer
-                let mut merged_subquery = self.subquery.clone().unwrap_or_default();
-
-                // The subquery_path is already set to None, no need to set it again
-
-                let their_top_key = their_subquery_path.remove(0);
-
-                merged_subquery.insert_key(their_top_key.clone());
-
-                let maybe_their_subquery_path = if their_subquery_path.is_empty() {
-                    None
-                } else {
-                    Some(their_subquery_path)
-                };
-                // their subquery stays the same as we didn't change level
-                // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
-                    // there are no conditional subquery branches yes
-                    QueryItem::Key(their_top_key),
-                    SubqueryBranch {
-                        subquery_path: maybe_their_subquery_path,
-                        subquery: other.subquery.clone(),
-                    },
-                );
-
-                SubqueryBranch {
-                    subquery_path: None,
-                    subquery: Some(merged_subquery),
-                }
+        if other.is_empty() || self == other {
+            return self.clone();
+        }
+        if self.is_empty() {
+            return other.clone();
+        }
+        let no_path = vec![];
+        let CommonPathResult { common_path, .. } = CommonPathResult::from_paths(
+            self.subquery_path.as_ref().unwrap_or(&no_path),
+            other.subquery_path.as_ref().unwrap_or(&no_path),
+        );
+        let depth = common_path.len();
+        let subquery = match (self.query_below(depth), other.query_below(depth)) {
+            (Some(mut ours), Some(theirs)) => {
+                ours.merge_with(theirs);
+                Some(ours)
             }
+            (ours, theirs) => ours.or(theirs),
+        };
+        SubqueryBranch {
+            subquery_path: if common_path.is_empty() {
+                None
+            } else {
+                Some(common_path)
+            },
+            subquery: subquery.map(Box::new),
         }
     }
 }
@@ -443,109 +272,72 @@ impl Query {
         // ordering
         let mut merged_query = queries.swap_remove(0);
         for query in queries {
-            let Query {
-                mut items,
-                default_subquery_branch,
-                conditional_subquery_branches,
-                left_to_right: _,
-                add_parent_tree_on_subquery,
-            } = query;
-            // Preserve add_parent_tree_on_subquery if any query requests it
-            if add_parent_tree_on_subquery {
-                merged_query.add_parent_tree_on_subquery = true;
-            }
-            // the searched for items are the union of all items
-            merged_query.insert_items(items.clone());
-
-            // // We now need to deal with subqueries
-            // let QueryItemManyIntersectionResult{ in_both, ours, theirs } =
-            // QueryItem::intersect_many_ordered(&mut merged_query.items, items);
-            // // for the items that are in both we should set them to the merged subquery
-            // branch
-            //
-            // // for the items that are in ours and theirs we should add conditional
-            // subqueries if let Some(ours) = ours {
-            //     for our_item in ours {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(our_item,
-            // conditional_subquery_branch)     }
-            // }
-            //
-            // if let Some(theirs) = theirs {
-            //     for their_item in theirs {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(their_item,
-            // conditional_subquery_branch)     }
-            // }
-
-            if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-                // if there are conditional subqueries
-                // we need to remove from our items the conditional items
-
-                for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches
-                {
-                    merged_query.merge_conditional_boxed_subquery(
-                        conditional_item.clone(),
-                        conditional_subquery_branch,
-                    );
-                    if !items.is_empty() {
-                        let intersection_result =
-                            QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                        items = intersection_result.ours.unwrap_or_default();
-                    }
-                }
-            }
-            // if there are no conditional subquery items then things are easy
-            // we create a conditional subquery item for all our items and add it to the
-            // query
-            for item in items {
-                merged_query
-                    .merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
-            }
+            merged_query.merge_with(query);
         }
         merged_query
     }
 
+    /// The items of the query, each with the subquery branch that applies to
+    /// all of its keys. They do not overlap.
+    fn items_with_branches(&self) -> Vec<(QueryItem, SubqueryBranch)> {
+        let mut query = Query::new();
+        query.insert_items(self.items.clone());
+        let mut items = query.items;
+        let mut result = vec![];
+        for (conditional_item, branch) in self.conditional_subquery_branches.iter().flatten() {
+            let intersection =
+                QueryItem::intersect_many_ordered(&mut items, vec![conditional_item.clone()]);
+            for item in intersection.in_both.unwrap_or_default() {
+                result.push((item, branch.clone()));
+            }
+            items = intersection.ours.unwrap_or_default();
+        }
+        for item in items {
+            result.push((item, self.default_subquery_branch.clone()));
+        }
+        result
+    }
+
     /// Merges another query into this one, combining items and conditional
     /// subquery branches.
     pub fn merge_with(&mut self, other: Query) {
-        let Query {
-            mut items,
-            default_subquery_branch,
-            conditional_subquery_branches,
-            left_to_right: _,
-            add_parent_tree_on_subquery,
-        } = other;
-        // Preserve add_parent_tree_on_subquery if either query requests it
-        if add_parent_tree_on_subquery {
-            self.add_parent_tree_on_subquery = true;
-        }
-        self.insert_items(items.clone());
-
-        // let intersection_result = QueryItem::intersect_many_ordered(&mut self.items,
-        // items); // merge query items as they point to the same context
-        // for item in items {
-        //     self.insert_item(item)
-        // }
-
-        // self.merge_default_subquery_branch(default_subquery_branch);
-        if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-            for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches {
-                self.merge_conditional_boxed_subquery(
-                    conditional_item.clone(),
-                    conditional_subquery_branch,
-                );
-
-                if !items.is_empty() {
-                    let intersection_result =
-                        QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                    items = intersection_result.ours.unwrap_or_default();
+        if self.has_subquery() || other.has_subquery() {
+            let mut branches = IndexMap::new();
+            let mut theirs = other.items_with_branches();
+            for (our_item, our_branch) in self.items_with_branches() {
+                let mut ours = vec![our_item];
+                let mut their_leftovers = vec![];
+                for (their_item, their_branch) in theirs {
+                    let intersection =
+                        QueryItem::intersect_many_ordered(&mut ours, vec![their_item]);
+                    for item in intersection.in_both.unwrap_or_default() {
+                        branches.insert(item, our_branch.merge(&their_branch));
+                    }
+                    ours = intersection.ours.unwrap_or_default();
+                    for item in intersection.theirs.unwrap_or_default() {
+                        their_leftovers.push((item, their_branch.clone()));
+                    }
+                }
+                for item in ours {
+                    branches.insert(item, our_branch.clone());
                 }
+                theirs = their_leftovers;
             }
+            branches.extend(theirs);
+            // our default branch still applies to everything else
+            branches.retain(|_, branch| *branch != self.default_subquery_branch);
+            self.conditional_subquery_branches = if branches.is_empty() {
+                None
+            } else {
+                Some(branches)
+            };
         }
-        for item in items {
-            self.merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
+        // Preserve add_parent_tree_on_subquery if either query requests it
+        if other.add_parent_tree_on_subquery {
+            self.add_parent_tree_on_subquery = true;
         }
+        // the searched for items are the union of all items
+        self.insert_items(other.items);
     }
 
     /// Adds a conditional subquery. A conditional subquery replaces the default
@@ -603,109 +395,27 @@ impl Query {
             // 33333
             let mut sub_query_items_merging_in_vec = vec![query_item_merging_in];
             for (original_query_item, subquery_branch) in conditional_subquery_branches {
-                let mut new_query_items_merging_in_vec = vec![];
-                let mut hit = false;
-                for sub_query_item_merging_in in sub_query_items_merging_in_vec {
-                    let QueryItemIntersectionResult {
-                        in_both,
-                        ours_left,
-                        ours_right,
-                        theirs_left,
-                        theirs_right,
-                    } = original_query_item.intersect(&sub_query_item_merging_in);
-                    if let Some(in_both) = in_both {
-                        if !hit {
-                            hit = true;
-                        }
-                        // merge the overlapping subquery branches
-                        let merged_subquery_branch =
-                            subquery_branch.merge(&subquery_branch_merging_in);
-                        merged_items.insert(in_both, merged_subquery_branch);
-
-                        match (ours_left, ours_right, theirs_left, theirs_right) {
-                            (None, None, None, None) => {}
-                            (Some(ours_left), None, None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                            }
-                            (None, Some(ours_right), None, None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (Some(ours_left), Some(ours_right), None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (None, None, Some(theirs_left), None) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), None, Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, None, None, Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), None, None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, None, Some(theirs_left), Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-
-                            (Some(ours_left), None, Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (
-                                Some(ours_left),
-                                Some(ours_right),
-                                Some(theirs_left),
-                                Some(theirs_right),
-                            ) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                        }
-                    } else {
-                        // there was no overlap
-                        // re-add to merged_items
-                        new_query_items_merging_in_vec.push(sub_query_item_merging_in);
-                    }
+                let intersection = QueryItem::intersect_many_ordered(
+                    &mut sub_query_items_merging_in_vec,
+                    vec![original_query_item],
+                );
+                // merge the overlapping subquery branches
+                for in_both in intersection.in_both.unwrap_or_default() {
+                    merged_items
+                        .entry(in_both)
+                        .or_insert_with(|| subquery_branch.merge(&subquery_branch_merging_in));
                 }
-                if !hit {
-                    merged_items.insert(original_query_item, subquery_branch.clone());
+                for original_leftover in intersection.theirs.unwrap_or_default() {
+                    merged_items
+                        .entry(original_leftover)
+                        .or_insert_with(|| subquery_branch.clone());
                 }
-                sub_query_items_merging_in_vec = new_query_items_merging_in_vec;
+                sub_query_items_merging_in_vec = intersection.ours.unwrap_or_default();
             }
             for split_item in sub_query_items_merging_in_vec {
-                merged_items.insert(split_item, subquery_branch_merging_in.clone());
+                merged_items
+                    .entry(split_item)
+                    .or_insert_with(|| subquery_branch_merging_in.clone());
             }
         } else {
             merged_items.insert(query_item_merging_in, subquery_branch_merging_in);
diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 8ea5108..e8aa08f 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -239,7 +239,6 @@ impl PathQuery {
             let mut subquery_path =
                 subquery_path.ok_or(Error::CorruptedCodeExecution("subquery path must exist"))?;
             let key = subquery_path.remove(0); // must exist
-            merged_query.insert_item(QueryItem::Key(key.clone()));
             let rest_of_path = if subquery_path.is_empty() {
                 None
             } else {
@@ -249,7 +248,9 @@ impl PathQuery {
                 subquery_path: rest_of_path,
                 subquery,
             };
-            merged_query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            let mut query = Query::new_single_key(key.clone());
+            query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            merged_query.merge_with(query);
         }
 
         Ok(PathQuery::new_unsized(common_path, merged_query))
-- 
2.43.0


From 534e6575db5d48afd52a43d63b040e2ca6584f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 35/47] fix: ranges without any keys intersect nothing

---
 grovedb-query/src/query_item/intersect.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grovedb-query/src/query_item/intersect.rs b/grovedb-query/src/query_item/intersect.rs
index 90b56ec..5b6033a 100644
--- a/grovedb-query/src/query_item/intersect.rs
+++ b/grovedb-query/src/query_item/intersect.rs
@@ -564,6 +564,16 @@ impl QueryItem {
     /// Computes the intersection of two query items, returning the shared
     /// region and any leftover portions.
     pub fn intersect(&self, other: &Self) -> QueryItemIntersectionResult {
+        if self.is_empty_range() || other.is_empty_range() {
+            // no key can be in both
+            return QueryItemIntersectionResult {
+                in_both: None,
+                ours_left: (!self.is_empty_range()).then(|| self.clone()),
+                ours_right: None,
+                theirs_left: None,
+                theirs_right: (!other.is_empty_range()).then(|| other.clone()),
+            };
+        }
         self.to_range_set().intersect(other.to_range_set()).into()
     }
 
-- 
2.43.0


From e51ee669486d7531c7801e685416d33ca2a2d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 36/47] fix: displaying a proof whose merk bytes or values do
 not decode must end

---
 grovedb/src/operations/proof/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/grovedb/src/operations/proof/mod.rs b/grovedb/src/operations/proof/mod.rs
index 1b9729f..dcdeaa2 100644
--- a/grovedb/src/operations/proof/mod.rs
+++ b/grovedb/src/operations/proof/mod.rs
@@ -648,6 +648,8 @@ fn decode_merk_proof(proof: &[u8]) -> Result<String, fmt::Error> {
             }
             Err(e) => {
                 result.push_str(&format!("\n    {}: Error decoding op: {}", i, e));
+                // the decoder does not get past an op it cannot decode
+                break;
             }
         }
     }
@@ -667,6 +669,11 @@ fn op_to_string(op: &Op) -> Result<String, fmt::Error> {
     Ok(s)
 }
 
+/// The element a value holds, or the bytes if it holds none.
+fn value_to_string(value: &[u8]) -> String {
+    element_hex_to_ascii(value).unwrap_or_else(|_| hex_to_ascii(value))
+}
+
 fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
     let s = match node {
         Node::Hash(hash) => format!("Hash(HASH[{}])", hex::encode(hash)),
@@ -675,13 +682,13 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
             format!(
                 "KV({}, {})",
                 hex_to_ascii(key),
-                element_hex_to_ascii(value)?
+                value_to_string(value)
             )
         }
         Node::KVValueHash(key, value, value_hash) => format!(
             "KVValueHash({}, {}, HASH[{}])",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash)
         ),
         Node::KVDigest(key, value_hash) => format!(
@@ -698,20 +705,20 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
         Node::KVRefValueHash(key, value, value_hash) => format!(
             "KVRefValueHash({}, {}, HASH[{}])",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash)
         ),
         Node::KVValueHashFeatureType(key, value, value_hash, feature_type) => format!(
             "KVValueHashFeatureType({}, {}, HASH[{}], {:?})",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash),
             feature_type
         ),
         Node::KVCount(key, value, count) => format!(
             "KVCount({}, {}, {})",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             count
         ),
         Node::KVHashCount(kv_hash, count) => {
@@ -720,7 +727,7 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
         Node::KVRefValueHashCount(key, value, value_hash, count) => format!(
             "KVRefValueHashCount({}, {}, HASH[{}], {})",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash),
             count
         ),
@@ -733,7 +740,7 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
         ) => format!(
             "KVValueHashFeatureTypeWithChildHash({}, {}, HASH[{}], {:?}, HASH[{}])",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash),
             feature_type,
             hex::encode(child_hash)
-- 
2.43.0


From 33907b586a70a6373d3b57d996e095348b85b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 37/47] fix: ChunkOp decoding must not allocate what a length
 merely claims

---
 merk/src/proofs/chunk/chunk_op.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/merk/src/proofs/chunk/chunk_op.rs b/merk/src/proofs/chunk/chunk_op.rs
index 674e43d..781f3c1 100644
--- a/merk/src/proofs/chunk/chunk_op.rs
+++ b/merk/src/proofs/chunk/chunk_op.rs
@@ -94,9 +94,16 @@ impl Decode for ChunkOp {
 
         match marker[0] {
             0 => {
-                let length = input.read_varint()?;
-                let mut instruction_as_binary = vec![0_u8; length];
-                input.read_exact(&mut instruction_as_binary)?;
+                // memory is taken as bytes arrive, not as they are promised
+                let length: usize = input.read_varint()?;
+                let mut instruction_as_binary = vec![];
+                input
+                    .by_ref()
+                    .take(length as u64)
+                    .read_to_end(&mut instruction_as_binary)?;
+                if instruction_as_binary.len() < length {
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                }
 
                 let instruction: Vec<bool> = instruction_as_binary
                     .into_iter()
@@ -106,8 +113,8 @@ impl Decode for ChunkOp {
                 *self = ChunkOp::ChunkId(instruction);
             }
             1 => {
-                let ops_length = input.read_varint()?;
-                let mut chunk = Vec::with_capacity(ops_length);
+                let ops_length: usize = input.read_varint()?;
+                let mut chunk = vec![];
 
                 for _ in 0..ops_length {
                     let op = Decode::decode(&mut input)?;
-- 
2.43.0


From 90281ba0dfedafec40db6af3da0fe7aa89620ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 38/47] fix: chunk index of a traversal must not underflow for
 trees of height 0 and 1

---
 merk/src/proofs/chunk/util.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/merk/src/proofs/chunk/util.rs b/merk/src/proofs/chunk/util.rs
index 8f69012..049dea4 100644
--- a/merk/src/proofs/chunk/util.rs
+++ b/merk/src/proofs/chunk/util.rs
@@ -216,7 +216,11 @@ pub fn chunk_index_from_traversal_instruction(
     let mut current_chunk_index = 1;
 
     let mut layer_heights = chunk_height_per_layer(height);
-    let last_layer_height = layer_heights.pop().expect("confirmed not empty");
+    let Some(last_layer_height) = layer_heights.pop() else {
+        return Err(Error::ChunkingError(BadTraversalInstruction(
+            "traversal instruction should not address nodes of an empty tree",
+        )));
+    };
 
     // traversal instructions should only point to the root node of chunks (chunk
     // boundaries) the layer heights represent the height of each chunk layer
@@ -226,7 +230,8 @@ pub fn chunk_index_from_traversal_instruction(
     //      height 2 is represented by [left] or [right] len of 1
     // therefore last chunk root node is address with total_height -
     // last_chunk_height
-    if traversal_instruction.len() > height - last_layer_height {
+    // a tree of height 1 still has a layer of height 2
+    if traversal_instruction.len() > height.saturating_sub(last_layer_height) {
         return Err(Error::ChunkingError(BadTraversalInstruction(
             "traversal instruction should not address nodes past the root of the last layer chunks",
         )));
-- 
2.43.0


From e7642da6fbf1241ecb8c24c9cbade949170fad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 39/47] fix: refuse decoded child heights no tree can have

---
 merk/src/tree/link.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/merk/src/tree/link.rs b/merk/src/tree/link.rs
index 3b6f017..be02d30 100644
--- a/merk/src/tree/link.rs
+++ b/merk/src/tree/link.rs
@@ -18,6 +18,11 @@ use crate::merk::NodeType;
 use crate::tree::tree_feature_type::AggregateData;
 #[cfg(feature = "minimal")]
 use crate::HASH_LENGTH_U32;
+/// The tallest child a link may tell of when decoded. No balanced tree comes
+/// near it; heights and their differences stay within their types.
+#[cfg(feature = "minimal")]
+const MAX_CHILD_HEIGHT: u8 = 125;
+
 // TODO: optimize memory footprint
 
 #[cfg(feature = "minimal")]
@@ -601,6 +606,11 @@ impl Decode for Link {
 
             child_heights.0 = read_u8(&mut input)?;
             child_heights.1 = read_u8(&mut input)?;
+            for child_height in [child_heights.0, child_heights.1] {
+                if child_height > MAX_CHILD_HEIGHT {
+                    return Err(ed::Error::UnexpectedByte(child_height));
+                }
+            }
 
             let aggregate_data_byte = read_u8(&mut input)?;
             *aggregate_data = match aggregate_data_byte {
-- 
2.43.0


From 9fe1df3255ffadf4395ab37254c6cbdc0eb829c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 40/47] fix: a restored tree has its own feature types and
 aggregates

---
 merk/src/merk/restore.rs | 130 +++++++++++++++++++++++++++++----------
 merk/src/tree/link.rs    |  11 ++++
 2 files changed, 108 insertions(+), 33 deletions(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 576ef08..94589c8 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -31,10 +31,12 @@
 
 use std::collections::BTreeMap;
 
+use grovedb_element::Element;
 use grovedb_storage::{Batch, StorageContext};
 use grovedb_version::version::GroveVersion;
 
 use crate::{
+    element::tree_type::ElementTreeTypeExtensions,
     merk,
     merk::MerkSource,
     proofs::{
@@ -47,7 +49,9 @@ use crate::{
         tree::{execute, Child, Tree as ProofTree},
         Node, Op,
     },
-    tree::{combine_hash, kv::ValueDefinedCostType, value_hash, RefWalker, TreeNode},
+    tree::{
+        combine_hash, kv::ValueDefinedCostType, value_hash, AggregateData, RefWalker, TreeNode,
+    },
     tree_type::TreeType,
     CryptoHash, Error,
     Error::{CostsError, StorageError},
@@ -95,6 +99,7 @@ use crate::{
 pub struct Restorer<S> {
     merk: Merk<S>,
     chunk_id_to_root_hash: BTreeMap<Vec<u8>, CryptoHash>,
+    expected_root_hash: CryptoHash,
     parent_key_value_hash: Option<CryptoHash>,
     // this is used to keep track of parents whose links need to be rewritten
     parent_keys: BTreeMap<Vec<u8>, Vec<u8>>,
@@ -113,6 +118,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         Self {
             merk,
             chunk_id_to_root_hash,
+            expected_root_hash,
             parent_key_value_hash,
             parent_keys: BTreeMap::new(),
         }
@@ -143,6 +149,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
             parent_key_value_hash = self.parent_key_value_hash;
         }
         let chunk_tree = Self::verify_chunk(chunk, expected_root_hash, &parent_key_value_hash)?;
+        Self::verify_values(&chunk_tree, grove_version)?;
 
         let mut root_traversal_instruction = vec_bytes_as_traversal_instruction(chunk_id)?;
 
@@ -162,7 +169,8 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         }
 
         // next up, we need to write the chunk and build the map again
-        let chunk_write_result = self.write_chunk(chunk_tree, &mut root_traversal_instruction);
+        let chunk_write_result =
+            self.write_chunk(chunk_tree, &mut root_traversal_instruction, grove_version);
         if chunk_write_result.is_ok() {
             // if we were able to successfully write the chunk, we can remove
             // the chunk expected root hash from our chunk id map
@@ -267,6 +275,48 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         Ok(tree)
     }
 
+    /// Verifies that the values in a chunk are the ones its hashes commit to.
+    ///
+    /// Only a tree or a reference has a value hash that is more than the hash
+    /// of its value, so a value hash given next to any other value must be the
+    /// hash of that value.
+    fn verify_values(chunk_tree: &ProofTree, grove_version: &GroveVersion) -> Result<(), Error> {
+        chunk_tree.visit_refs(&mut |proof_node| {
+            let (value, vh) = match &proof_node.node {
+                Node::KVValueHashFeatureType(_, value, vh, _) | Node::KVValueHash(_, value, vh) => {
+                    (value, vh)
+                }
+                _ => return Ok(()),
+            };
+            let combined = Element::deserialize(value, grove_version)
+                .map(|element| element.is_any_tree() || element.is_reference())
+                .unwrap_or(false);
+            if !combined && &value_hash(value.as_slice()).unwrap() != vh {
+                return Err(Error::ChunkRestoringError(ChunkError::InvalidChunkProof(
+                    "value doesn't match its value hash",
+                )));
+            }
+            Ok(())
+        })
+    }
+
+    /// The feature type a restored node has by itself.
+    ///
+    /// Chunk nodes either leave it out or give an aggregate of the node and
+    /// its descendants; it follows from the element and the tree type. Values
+    /// that aren't elements keep the given one.
+    fn own_feature_type(
+        tree_type: TreeType,
+        value: &[u8],
+        given: TreeFeatureType,
+        grove_version: &GroveVersion,
+    ) -> TreeFeatureType {
+        Element::deserialize(value, grove_version)
+            .ok()
+            .and_then(|element| element.get_feature_type(tree_type).ok())
+            .unwrap_or(given)
+    }
+
     /// Write the verified chunk to storage.
     ///
     /// Note on child heights: `Child::as_link()` produces `Link::Reference`
@@ -283,10 +333,14 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         &mut self,
         chunk_tree: ProofTree,
         traversal_instruction: &mut Vec<bool>,
+        grove_version: &GroveVersion,
     ) -> Result<Vec<Vec<u8>>, Error> {
         // this contains all the elements we want to write to storage
         let mut batch = self.merk.storage.new_batch();
         let mut new_chunk_ids = Vec::new();
+        let tree_type = self.merk.tree_type;
+        let own_feature_type =
+            |value: &[u8], given| Self::own_feature_type(tree_type, value, given, grove_version);
 
         chunk_tree.visit_refs_track_traversal_and_parent(
             traversal_instruction,
@@ -299,7 +353,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             *vh,
-                            *feature_type,
+                            own_feature_type(value, *feature_type),
                         )
                         .unwrap();
 
@@ -322,7 +376,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             vh,
-                            TreeFeatureType::BasicMerkNode,
+                            own_feature_type(value, TreeFeatureType::BasicMerkNode),
                         )
                         .unwrap();
 
@@ -340,7 +394,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             *vh,
-                            TreeFeatureType::BasicMerkNode,
+                            own_feature_type(value, TreeFeatureType::BasicMerkNode),
                         )
                         .unwrap();
 
@@ -358,7 +412,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             vh,
-                            TreeFeatureType::ProvableCountedMerkNode(*count),
+                            own_feature_type(value, TreeFeatureType::ProvableCountedMerkNode(*count)),
                         )
                         .unwrap();
 
@@ -468,7 +522,8 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         Ok(())
     }
 
-    /// Recomputes all child heights bottom-up from the actual tree structure.
+    /// Recomputes all child heights and aggregates bottom-up from the actual
+    /// tree structure.
     ///
     /// Heights are not part of the cryptographic commitment (they do not
     /// affect the Merkle root hash), so a chunk producer could supply
@@ -476,14 +531,15 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
     /// restoration, heights for chunk-boundary links are stored as
     /// placeholders. This method walks the entire tree, computes true
     /// heights from the leaves up, and rewrites every node with the
-    /// correct values. Called by `finalize()` when `verify_height` detects
-    /// a discrepancy.
+    /// correct values. The same goes for the aggregates in links. Called by
+    /// `finalize()` when `verify_height` detects a discrepancy, and for every
+    /// tree that has aggregates.
     fn rewrite_heights(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
         fn rewrite_child_heights<'s, 'db, S: StorageContext<'db>>(
             mut walker: RefWalker<MerkSource<'s, S>>,
             batch: &mut <S as StorageContext<'db>>::Batch,
             grove_version: &GroveVersion,
-        ) -> Result<(u8, u8), Error> {
+        ) -> Result<((u8, u8), AggregateData), Error> {
             let mut cloned_node = TreeNode::decode(
                 walker.tree().key().to_vec(),
                 walker.tree().encode().as_slice(),
@@ -505,14 +561,14 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 )
                 .value?
             {
-                let left_child_heights = rewrite_child_heights(left_walker, batch, grove_version)?;
+                let (left_child_heights, left_aggregate_data) =
+                    rewrite_child_heights(left_walker, batch, grove_version)?;
                 left_height = left_child_heights.0.max(left_child_heights.1) + 1;
-                *cloned_node
-                    .link_mut(LEFT)
-                    .ok_or(Error::CorruptedState(
-                        "expected left link to exist after walking left child",
-                    ))?
-                    .child_heights_mut() = left_child_heights;
+                let link = cloned_node.link_mut(LEFT).ok_or(Error::CorruptedState(
+                    "expected left link to exist after walking left child",
+                ))?;
+                *link.child_heights_mut() = left_child_heights;
+                *link.aggregate_data_mut() = left_aggregate_data;
             }
 
             if let Some(right_walker) = walker
@@ -523,15 +579,14 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 )
                 .value?
             {
-                let right_child_heights =
+                let (right_child_heights, right_aggregate_data) =
                     rewrite_child_heights(right_walker, batch, grove_version)?;
                 right_height = right_child_heights.0.max(right_child_heights.1) + 1;
-                *cloned_node
-                    .link_mut(RIGHT)
-                    .ok_or(Error::CorruptedState(
-                        "expected right link to exist after walking right child",
-                    ))?
-                    .child_heights_mut() = right_child_heights;
+                let link = cloned_node.link_mut(RIGHT).ok_or(Error::CorruptedState(
+                    "expected right link to exist after walking right child",
+                ))?;
+                *link.child_heights_mut() = right_child_heights;
+                *link.aggregate_data_mut() = right_aggregate_data;
             }
 
             let bytes = cloned_node.encode();
@@ -539,7 +594,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 .put(walker.tree().key(), &bytes, None, None)
                 .map_err(CostsError)?;
 
-            Ok((left_height, right_height))
+            Ok(((left_height, right_height), cloned_node.aggregate_data()?))
         }
 
         let mut batch = self.merk.storage.new_batch();
@@ -608,8 +663,11 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
             })?;
 
         // Heights written during chunk processing may be placeholders (see
-        // write_chunk doc comment). Verify them here, and rewrite if needed.
-        if self.verify_height(grove_version).is_err() {
+        // write_chunk doc comment), and so may aggregates. Verify the heights
+        // here, and rewrite both if needed.
+        if self.merk.tree_type != TreeType::NormalTree
+            || self.verify_height(grove_version).is_err()
+        {
             self.rewrite_heights(grove_version)?;
             // update the root node after height rewrite
             self.merk
@@ -625,17 +683,23 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 })?;
         }
 
-        if !self
-            .merk
-            .verify(self.merk.tree_type != TreeType::NormalTree, grove_version)
-            .0
-            .is_empty()
-        {
+        if !self.merk.verify(false, grove_version).0.is_empty() {
             return Err(Error::ChunkRestoringError(ChunkError::InternalError(
                 "restored tree invalid",
             )));
         }
 
+        // the chunks told the aggregates of their nodes, these are the real ones
+        let mut root_hash = self.merk.root_hash().unwrap();
+        if let Some(parent_key_value_hash) = &self.parent_key_value_hash {
+            root_hash = combine_hash(parent_key_value_hash, &root_hash).unwrap();
+        }
+        if root_hash != self.expected_root_hash {
+            return Err(Error::ChunkRestoringError(ChunkError::InternalError(
+                "restored tree doesn't have the expected root hash",
+            )));
+        }
+
         Ok(self.merk)
     }
 
diff --git a/merk/src/tree/link.rs b/merk/src/tree/link.rs
index be02d30..98eb8ac 100644
--- a/merk/src/tree/link.rs
+++ b/merk/src/tree/link.rs
@@ -283,6 +283,17 @@ impl Link {
         }
     }
 
+    /// Returns a mutable reference to the aggregate data of the linked tree.
+    #[inline]
+    pub(crate) fn aggregate_data_mut(&mut self) -> &mut AggregateData {
+        match self {
+            Link::Reference { aggregate_data, .. } => aggregate_data,
+            Link::Modified { .. } => unreachable!("not used for modified links"),
+            Link::Uncommitted { aggregate_data, .. } => aggregate_data,
+            Link::Loaded { aggregate_data, .. } => aggregate_data,
+        }
+    }
+
     // Costs for operations within a single merk
     #[inline]
     /// Encoded link size
-- 
2.43.0


From fdc6f036385e6f6474f6b46632ca363fdaa59758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 41/47] fix: a state sync with a refused, missing or falsely
 empty subtree is not complete

---
 grovedb/src/replication/state_sync_session.rs | 226 +++++++++++-------
 1 file changed, 134 insertions(+), 92 deletions(-)

diff --git a/grovedb/src/replication/state_sync_session.rs b/grovedb/src/replication/state_sync_session.rs
index 2e75a75..171d9ed 100644
--- a/grovedb/src/replication/state_sync_session.rs
+++ b/grovedb/src/replication/state_sync_session.rs
@@ -6,8 +6,9 @@ use std::{
     pin::Pin,
 };
 
+use grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT;
 use grovedb_merk::{
-    tree::{kv::ValueDefinedCostType, value_hash},
+    tree::{combine_hash, hash::NULL_HASH, kv::ValueDefinedCostType, value_hash},
     tree_type::TreeType,
     CryptoHash, Restorer,
 };
@@ -55,6 +56,9 @@ struct SubtreeStateSyncInfo<'db> {
 
     /// Number of processed chunks in current prefix (Path digest)
     num_processed_chunks: usize,
+
+    /// Whether the expected hash of the subtree is the one of an empty subtree
+    can_be_empty: bool,
 }
 
 impl SubtreeStateSyncInfo<'_> {
@@ -104,7 +108,6 @@ impl SubtreeStateSyncInfo<'_> {
                 "Incoming global_chunk_id not expected".to_string(),
             ));
         }
-        self.pending_chunks.remove(chunk_id);
         if !chunk_data.is_empty() {
             match decode_vec_ops(chunk_data) {
                 Ok(ops) => {
@@ -129,7 +132,13 @@ impl SubtreeStateSyncInfo<'_> {
                     )));
                 }
             }
+        } else if self.num_processed_chunks > 0 || !self.can_be_empty {
+            return Err(Error::InternalError(
+                "Incoming chunk is empty, the subtree isn't".to_string(),
+            ));
         }
+        // A chunk that was refused stays pending
+        self.pending_chunks.remove(chunk_id);
 
         Ok(res)
     }
@@ -144,6 +153,7 @@ impl<'tx> SubtreeStateSyncInfo<'tx> {
             pending_chunks: Default::default(),
             current_path: vec![],
             num_processed_chunks: 0,
+            can_be_empty: false,
         }
     }
 }
@@ -177,6 +187,10 @@ pub struct MultiStateSyncSession<'db> {
     /// Metadata for newly discovered subtrees that are pending processing.
     pending_discovered_subtrees: Option<SubtreesMetadata>,
 
+    /// Whether a subtree whose chunks have all arrived couldn't be completed.
+    /// Such a session can't be continued.
+    failed: bool,
+
     /// Transaction used for the synchronization process.
     /// This is placed last to ensure it is dropped last.
     transaction: Transaction<'db>,
@@ -198,6 +212,7 @@ impl<'db> MultiStateSyncSession<'db> {
             subtrees_batch_size,
             num_processed_subtrees_in_batch: 0,
             pending_discovered_subtrees: None,
+            failed: false,
             _pin: PhantomPinned,
         })
     }
@@ -214,17 +229,10 @@ impl<'db> MultiStateSyncSession<'db> {
             return false;
         }
 
-        for (_, subtree_state_info) in self.current_prefixes.iter() {
-            if !subtree_state_info.pending_chunks.is_empty() {
-                return false;
-            }
-        }
-
-        if self.pending_discovered_subtrees.is_some() {
-            return false;
-        }
-
-        true
+        // A subtree stays among the current ones until it is complete
+        !self.failed
+            && self.current_prefixes.is_empty()
+            && self.pending_discovered_subtrees.is_none()
     }
 
     /// Commits the sync session by finalizing the underlying transaction.
@@ -353,6 +361,15 @@ impl<'db> MultiStateSyncSession<'db> {
             sync_info.root_key = root_key.clone();
             sync_info.tree_type = tree_type;
             sync_info.current_path = path.to_vec();
+            let is_expected_root = |root_hash: &CryptoHash| {
+                hash == match actual_hash {
+                    Some(actual_hash) => combine_hash(&actual_hash, root_hash).unwrap(),
+                    None => *root_hash,
+                }
+            };
+            sync_info.can_be_empty = is_expected_root(&NULL_HASH)
+                || (matches!(tree_type, TreeType::CommitmentTree(_))
+                    && is_expected_root(&EMPTY_COMMITMENT_TREE_STATE_ROOT));
             self.as_mut()
                 .current_prefixes()
                 .insert(chunk_prefix, sync_info);
@@ -394,6 +411,12 @@ impl<'db> MultiStateSyncSession<'db> {
         &mut unsafe { self.get_unchecked_mut() }.pending_discovered_subtrees
     }
 
+    fn failed(self: Pin<&mut MultiStateSyncSession<'db>>) -> &mut bool {
+        // SAFETY: we only access a single field and do not move the struct;
+        // the pin invariant only protects `transaction` from being moved.
+        &mut unsafe { self.get_unchecked_mut() }.failed
+    }
+
     /// Applies a chunk during the state synchronization process.
     /// This method should be called by ABCI when the `ApplySnapshotChunk`
     /// method is invoked.
@@ -468,6 +491,11 @@ impl<'db> MultiStateSyncSession<'db> {
                 "GroveDB is not in syncing mode".to_string(),
             ));
         }
+        if self.failed {
+            return Err(Error::InternalError(
+                "state sync session failed to complete a subtree".to_string(),
+            ));
+        }
 
         let mut next_global_chunk_ids: Vec<Vec<u8>> = vec![];
 
@@ -526,92 +554,20 @@ impl<'db> MultiStateSyncSession<'db> {
                 }
                 next_global_chunk_ids.extend(next_chunk_ids);
             } else if subtree_state_sync.pending_chunks.is_empty() {
-                let completed_path = subtree_state_sync.current_path.clone();
-
-                // Subtree is finished. We can save it.
-                let is_subtree_empty = subtree_state_sync.num_processed_chunks == 0;
-                if let Some(prefix_data) = current_prefixes.remove(&chunk_prefix) {
-                    if is_subtree_empty {
-                        // For empty subtrees, verify the restorer's underlying merk has a
-                        // NULL root hash. A malicious peer that sends empty data for a
-                        // non-empty subtree will be caught here (and also at commit time
-                        // via H3 root hash verification).
-                        let merk = prefix_data.restorer.into_merk();
-                        let merk_root = merk.root_hash().unwrap();
-                        if merk_root != grovedb_merk::tree::hash::NULL_HASH {
-                            return Err(Error::InternalError(
-                                "empty subtree has non-null root hash".to_string(),
-                            ));
-                        }
-                    } else if let Err(err) = prefix_data.restorer.finalize(grove_version) {
-                        return Err(Error::InternalError(format!(
-                            "Unable to finalize Merk: {:?}",
-                            err
-                        )));
-                    }
-                } else {
-                    return Err(Error::InternalError(format!(
-                        "Prefix {:?} does not exist in current_prefixes",
-                        chunk_prefix
-                    )));
-                }
-
-                self.as_mut().processed_prefixes().insert(chunk_prefix);
-
-                *self.as_mut().num_processed_subtrees_in_batch() += 1;
-
-                let new_subtrees_metadata =
-                    self.discover_new_subtrees_metadata(&completed_path, grove_version)?;
-
-                if self.num_processed_subtrees_in_batch >= self.subtrees_batch_size {
-                    match self.as_mut().pending_discovered_subtrees() {
-                        None => {
-                            *self.as_mut().pending_discovered_subtrees() =
-                                Some(new_subtrees_metadata);
-                        }
-                        Some(existing_subtrees_metadata) => {
-                            existing_subtrees_metadata
-                                .data
-                                .extend(new_subtrees_metadata.data);
-                        }
-                    }
-                } else {
-                    let res = self
-                        .prepare_sync_state_sessions(new_subtrees_metadata, grove_version)
-                        .map_err(|e| {
-                            Error::InternalError(format!("Unable to discover Subtrees: {e}"))
-                        })?;
-                    next_chunk_ids.extend(res);
-                    next_global_chunk_ids.extend(next_chunk_ids);
-                }
+                let discovered_chunk_ids = self
+                    .complete_subtree(&chunk_prefix, grove_version)
+                    .inspect_err(|_| *self.as_mut().failed() = true)?;
+                next_global_chunk_ids.extend(discovered_chunk_ids);
             }
         }
 
         if self.num_processed_subtrees_in_batch >= self.subtrees_batch_size
             && self.current_prefixes.is_empty()
         {
-            // SAFETY: we made sure `self.current_prefixes` is empty so there are no
-            // references to the transaction we're about to replace
-            unsafe {
-                self.set_new_transaction()?;
-            }
-
-            let new_subtrees_metadata =
-                self.as_mut()
-                    .pending_discovered_subtrees()
-                    .take()
-                    .ok_or(Error::CorruptedData(
-                        "No pending subtrees available for resume_sync".to_string(),
-                    ))?;
-            *self.as_mut().num_processed_subtrees_in_batch() = 0;
-
-            let mut next_chunk_ids = vec![];
-
             let discovered_chunk_ids = self
-                .prepare_sync_state_sessions(new_subtrees_metadata, grove_version)
-                .map_err(|e| Error::InternalError(format!("Unable to discover Subtrees: {e}")))?;
-            next_chunk_ids.extend(discovered_chunk_ids);
-            next_global_chunk_ids.extend(next_chunk_ids);
+                .complete_batch(grove_version)
+                .inspect_err(|_| *self.as_mut().failed() = true)?;
+            next_global_chunk_ids.extend(discovered_chunk_ids);
         }
 
         let mut res: Vec<Vec<u8>> = vec![];
@@ -623,6 +579,92 @@ impl<'db> MultiStateSyncSession<'db> {
         Ok(res)
     }
 
+    /// Completes a subtree all chunks of which were processed and returns the
+    /// global chunk IDs of the subtrees found in it, unless they have to wait
+    /// for the next batch.
+    fn complete_subtree(
+        self: &mut Pin<Box<MultiStateSyncSession<'db>>>,
+        chunk_prefix: &SubtreePrefix,
+        grove_version: &GroveVersion,
+    ) -> Result<Vec<Vec<u8>>, Error> {
+        // Subtree is finished. We can save it.
+        let Some(prefix_data) = self.as_mut().current_prefixes().remove(chunk_prefix) else {
+            return Err(Error::InternalError(format!(
+                "Prefix {:?} does not exist in current_prefixes",
+                chunk_prefix
+            )));
+        };
+        let completed_path = prefix_data.current_path;
+
+        if prefix_data.num_processed_chunks == 0 {
+            // For empty subtrees, verify the restorer's underlying merk has a
+            // NULL root hash. A malicious peer that sends empty data for a
+            // non-empty subtree will be caught here (and also at commit time
+            // via H3 root hash verification).
+            let merk = prefix_data.restorer.into_merk();
+            let merk_root = merk.root_hash().unwrap();
+            if merk_root != NULL_HASH {
+                return Err(Error::InternalError(
+                    "empty subtree has non-null root hash".to_string(),
+                ));
+            }
+        } else if let Err(err) = prefix_data.restorer.finalize(grove_version) {
+            return Err(Error::InternalError(format!(
+                "Unable to finalize Merk: {:?}",
+                err
+            )));
+        }
+
+        self.as_mut().processed_prefixes().insert(*chunk_prefix);
+
+        *self.as_mut().num_processed_subtrees_in_batch() += 1;
+
+        let new_subtrees_metadata =
+            self.discover_new_subtrees_metadata(&completed_path, grove_version)?;
+
+        if self.num_processed_subtrees_in_batch >= self.subtrees_batch_size {
+            match self.as_mut().pending_discovered_subtrees() {
+                None => {
+                    *self.as_mut().pending_discovered_subtrees() = Some(new_subtrees_metadata);
+                }
+                Some(existing_subtrees_metadata) => {
+                    existing_subtrees_metadata
+                        .data
+                        .extend(new_subtrees_metadata.data);
+                }
+            }
+            Ok(vec![])
+        } else {
+            self.prepare_sync_state_sessions(new_subtrees_metadata, grove_version)
+                .map_err(|e| Error::InternalError(format!("Unable to discover Subtrees: {e}")))
+        }
+    }
+
+    /// Commits a batch of complete subtrees and returns the global chunk IDs of
+    /// the subtrees that waited for it.
+    fn complete_batch(
+        self: &mut Pin<Box<MultiStateSyncSession<'db>>>,
+        grove_version: &GroveVersion,
+    ) -> Result<Vec<Vec<u8>>, Error> {
+        // SAFETY: the caller made sure `self.current_prefixes` is empty so there are
+        // no references to the transaction we're about to replace
+        unsafe {
+            self.set_new_transaction()?;
+        }
+
+        let new_subtrees_metadata =
+            self.as_mut()
+                .pending_discovered_subtrees()
+                .take()
+                .ok_or(Error::CorruptedData(
+                    "No pending subtrees available for resume_sync".to_string(),
+                ))?;
+        *self.as_mut().num_processed_subtrees_in_batch() = 0;
+
+        self.prepare_sync_state_sessions(new_subtrees_metadata, grove_version)
+            .map_err(|e| Error::InternalError(format!("Unable to discover Subtrees: {e}")))
+    }
+
     /// Discovers new subtrees at the given path that need to be synchronized.
     ///
     /// # Parameters
-- 
2.43.0


From 9ff56ff5f8462b60f5c7f3082e46c86a32f3003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 42/47] fix: chunks of a subtree whose root key is the empty
 key

---
 grovedb/src/replication.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/replication.rs b/grovedb/src/replication.rs
index 69e1317..466c6e3 100644
--- a/grovedb/src/replication.rs
+++ b/grovedb/src/replication.rs
@@ -129,8 +129,8 @@ impl GroveDb {
 
             let mut local_chunk_bytes: Vec<Vec<u8>> = vec![];
 
-            let merk = self
-                .open_transactional_merk_by_prefix(
+            let open_merk = |root_key| {
+                self.open_transactional_merk_by_prefix(
                     chunk_prefix,
                     root_key,
                     tree_type,
@@ -145,8 +145,15 @@ impl GroveDb {
                         hex::encode(chunk_prefix),
                         e
                     ))
-                })?;
-            if merk.is_empty_tree().unwrap() {
+                })
+            };
+            let mut merk = open_merk(root_key)?;
+            let is_empty = merk.is_empty_tree().unwrap();
+            if !is_empty && merk.root_key().is_none() && !tree_type.uses_non_merk_data_storage() {
+                // chunk ids don't tell the empty root key from none
+                merk = open_merk(Some(vec![]))?;
+            }
+            if is_empty {
                 local_chunk_bytes.push(vec![]);
             } else {
                 let mut chunk_producer = ChunkProducer::new(&merk).map_err(|e| {
-- 
2.43.0


From 81ba1b934d7ed284ab115f3cc0e09fa222ddbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 43/47] fix: a chunk that is nothing but a hash is refused

---
 merk/src/merk/restore.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 94589c8..53cc355 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -489,9 +489,9 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
             .last()
             .expect("rewrite is only called when traversal_instruction is not empty");
 
-        let updated_key = chunk_tree
-            .key()
-            .expect("chunk tree must have a key during restore");
+        let updated_key = chunk_tree.key().ok_or(Error::ChunkRestoringError(
+            ChunkError::InvalidChunkProof("root node of chunk has no key"),
+        ))?;
         let updated_sum = chunk_tree.aggregate_data().map_err(|e| {
             Error::CorruptedData(format!(
                 "chunk tree root node must be KVValueHashFeatureType for aggregate data: {e}"
-- 
2.43.0


From 61e92cc7653823b9edc620e929965d35804935ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 44/47] fix: the trunk verifier applies the minimum chunk depth
 the prover used

---
 grovedb/src/operations/proof/verify.rs | 39 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index ad4353b..c4d200b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1,7 +1,8 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use grovedb_merk::{
-    calculate_chunk_depths, calculate_max_tree_depth_from_count,
+    calculate_chunk_depths, calculate_chunk_depths_with_minimum,
+    calculate_max_tree_depth_from_count,
     element::tree_type::ElementTreeTypeExtensions,
     proofs::{
         execute,
@@ -2046,6 +2047,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: Option<CryptoHash> = None;
 
         // Walk through each path segment, verifying layer proofs
@@ -2093,6 +2095,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2177,8 +2183,7 @@ impl GroveDb {
         }
 
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(is_provable_count_tree, tree_depth, query)?;
 
         // Now we're at the target layer - decode and execute the trunk proof
         let mut decoder = Decoder::new(&current_layer.merk_proof);
@@ -2295,6 +2300,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: CryptoHash = [0u8; 32];
 
         // Walk through each path segment, verifying layer proofs
@@ -2343,6 +2349,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2426,9 +2436,7 @@ impl GroveDb {
         } else {
             let tree_depth = calculate_max_tree_depth_from_count(count);
             let _chunk_depths =
-                calculate_chunk_depths(tree_depth, query.max_depth).map_err(|e| {
-                    Error::CorruptedData(format!("invalid chunk depth parameters: {}", e))
-                })?;
+                Self::trunk_chunk_depths(is_provable_count_tree, tree_depth, query)?;
 
             let mut decoder = Decoder::new(target_merk_bytes);
             let ops: Vec<Op> = decoder
@@ -2502,8 +2510,7 @@ impl GroveDb {
         // Non-empty tree: extract elements
         let target_tree = target_tree_opt.unwrap();
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(is_provable_count_tree, tree_depth, query)?;
 
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
         let mut elements = BTreeMap::new();
@@ -2733,6 +2740,22 @@ impl GroveDb {
         }
     }
 
+    /// The chunk depths the prover used for a trunk: the minimum depth applies
+    /// to provable count trees only.
+    fn trunk_chunk_depths(
+        is_provable_count_tree: bool,
+        tree_depth: u8,
+        query: &PathTrunkChunkQuery,
+    ) -> Result<Vec<u8>, Error> {
+        match query.min_depth {
+            Some(min_depth) if is_provable_count_tree => {
+                calculate_chunk_depths_with_minimum(tree_depth, query.max_depth, min_depth)
+            }
+            _ => calculate_chunk_depths(tree_depth, query.max_depth),
+        }
+        .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))
+    }
+
     /// Extract the count from a CountTree, CountSumTree, ProvableCountTree,
     /// or ProvableCountSumTree element.
     fn extract_count_from_element(element: &Element) -> Option<u64> {
-- 
2.43.0


From d0dcf34b143c95ba7384b78f34342d2cda118a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 45/47] fix: let QueryItem deserialize what it serializes in
 self-describing formats

---
 grovedb-query/src/query_item/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index aadb7c4..f1194ae 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -131,17 +131,28 @@ impl<'de> Deserialize<'de> for QueryItem {
         D: Deserializer<'de>,
     {
         #[derive(Deserialize)]
-        #[serde(field_identifier, rename_all = "snake_case")]
+        // The names `Serialize` writes; the snake case ones stay accepted.
+        #[serde(field_identifier)]
         enum Field {
+            #[serde(alias = "key")]
             Key,
+            #[serde(alias = "range")]
             Range,
+            #[serde(alias = "range_inclusive")]
             RangeInclusive,
+            #[serde(alias = "range_full")]
             RangeFull,
+            #[serde(alias = "range_from")]
             RangeFrom,
+            #[serde(alias = "range_to")]
             RangeTo,
+            #[serde(alias = "range_to_inclusive")]
             RangeToInclusive,
+            #[serde(alias = "range_after")]
             RangeAfter,
+            #[serde(alias = "range_after_to")]
             RangeAfterTo,
+            #[serde(alias = "range_after_to_inclusive")]
             RangeAfterToInclusive,
         }
 
-- 
2.43.0


From dffd1a71a94c8b5a3d54c55c753179a50a69ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 46/47] fix: a path without segments is the root however it was
 derived

An exhausted path iterator that still had a base, and a builder whose
relative part had been popped empty, said they were neither empty nor
the root; is_root decides what the delete operations do.
---
 path/src/subtree_path_builder.rs | 10 ++--------
 path/src/subtree_path_iter.rs    |  7 +------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..8b130aa 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,7 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        self.len() == 0
     }
 }
 
@@ -332,13 +332,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.is_empty()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..a5b63a4 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,12 +77,7 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
-            && match &self.current_iter {
-                CurrentSubtreePathIter::Single(_) => false,
-                CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-                CurrentSubtreePathIter::OwnedBytes(bytes_iter) => bytes_iter.len() == 0,
-            }
+        self.len() == 0
     }
 }
 
-- 
2.43.0


From f6b532b44db6cde637772234f33996c33a3e286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:30 +0000
Subject: [PATCH 47/47] fix: branch_query tells the branch root hash its parent
 link has in provable count trees

---
 merk/src/merk/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/merk/src/merk/mod.rs b/merk/src/merk/mod.rs
index 3f86f37..63cf9af 100644
--- a/merk/src/merk/mod.rs
+++ b/merk/src/merk/mod.rs
@@ -977,11 +977,12 @@ where
             fn get_hash_at_path<S: Fetch + Sized + Clone>(
                 walker: &mut RefWalker<'_, S>,
                 path: &[bool],
+                tree_type: TreeType,
                 grove_version: &GroveVersion,
                 cost: &mut OperationCost,
             ) -> Result<CryptoHash, Error> {
                 if path.is_empty() {
-                    return Ok(walker.tree().hash().unwrap_add_cost(cost));
+                    return Ok(walker.tree().hash_for_link(tree_type).unwrap_add_cost(cost));
                 }
 
                 let go_left = path[0];
@@ -995,7 +996,7 @@ where
 
                 match child_result {
                     Ok(Some(mut child)) => {
-                        get_hash_at_path(&mut child, &path[1..], grove_version, cost)
+                        get_hash_at_path(&mut child, &path[1..], tree_type, grove_version, cost)
                     }
                     Ok(None) => Err(Error::InternalError(
                         "inconsistent tree state during branch_query",
@@ -1004,8 +1005,13 @@ where
                 }
             }
 
-            let branch_root_hash =
-                get_hash_at_path(&mut walker, &traversal_path, grove_version, &mut cost)?;
+            let branch_root_hash = get_hash_at_path(
+                &mut walker,
+                &traversal_path,
+                self.tree_type,
+                grove_version,
+                &mut cost,
+            )?;
 
             // Use traverse_and_build_chunk to generate proof at the target location
             // Note: We need to get a fresh walker since the previous one was consumed
-- 
2.43.0

