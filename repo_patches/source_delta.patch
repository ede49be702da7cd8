From 077563a91051844900043408788e495a91421dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 01/21] verif: guarded hooks (cfg tonbo_verif) for the
 model-conformance harness

---
 src/compaction/driver.rs |  40 +++++++
 src/compaction/minor.rs  |  12 +++
 src/db/mod.rs            |   2 +
 src/db/verif.rs          | 220 +++++++++++++++++++++++++++++++++++++++
 src/db/wal.rs            |   6 ++
 5 files changed, 280 insertions(+)
 create mode 100644 src/db/verif.rs

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 9801450..c0e1ccb 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -873,6 +873,46 @@ where
         }
     }
 
+    /// Verification hook: plan and execute at most one task exactly as the worker would.
+    #[cfg(tonbo_verif)]
+    pub(crate) async fn verif_compact_once<CE, P>(
+        &self,
+        planner: &P,
+        executor: &CE,
+    ) -> Result<bool, CompactionError>
+    where
+        CE: CompactionExecutor,
+        P: CompactionPlanner,
+    {
+        let Some(task) = self
+            .plan_compaction_task(planner)
+            .await
+            .map_err(CompactionError::Manifest)?
+        else {
+            return Ok(false);
+        };
+        let manifest_head = self
+            .manifest
+            .snapshot_latest(self.table_id)
+            .await
+            .map_err(CompactionError::Manifest)?
+            .head
+            .last_manifest_txn;
+        let scheduled = ScheduledCompaction {
+            task,
+            manifest_head,
+            lease: crate::compaction::executor::CompactionLease {
+                id: ulid::Ulid::new(),
+                owner: "verif".to_string(),
+                ttl_ms: DEFAULT_COMPACTION_LEASE_TTL_MS,
+            },
+        };
+        Ok(self
+            .run_scheduled_compaction(scheduled, executor)
+            .await?
+            .is_some())
+    }
+
     async fn wait_for_trigger(
         runtime: &E,
         periodic_interval: Option<Duration>,
diff --git a/src/compaction/minor.rs b/src/compaction/minor.rs
index de6a331..38f5463 100644
--- a/src/compaction/minor.rs
+++ b/src/compaction/minor.rs
@@ -52,6 +52,18 @@ impl MinorCompactor {
         SsTableDescriptor::new(SsTableId::new(id), self.target_level)
     }
 
+    /// Verification hook: draw the next output descriptor.
+    #[cfg(tonbo_verif)]
+    pub(crate) fn verif_next_descriptor(&self) -> SsTableDescriptor {
+        self.next_descriptor()
+    }
+
+    /// Verification hook: the SST id allocator shared with major compaction.
+    #[cfg(tonbo_verif)]
+    pub(crate) fn verif_id_allocator(&self) -> Arc<AtomicU64> {
+        Arc::clone(&self.next_id)
+    }
+
     /// Flush immutables when the threshold is met, returning the new SST on success.
     #[instrument(
         name = "compaction::minor",
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..f9ff19c 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -32,6 +32,8 @@ mod error;
 mod scan;
 #[cfg(all(test, feature = "tokio"))]
 mod tests;
+#[cfg(tonbo_verif)]
+pub mod verif;
 mod wal;
 
 pub use builder::{
diff --git a/src/db/verif.rs b/src/db/verif.rs
new file mode 100644
index 0000000..bb453b1
--- /dev/null
+++ b/src/db/verif.rs
@@ -0,0 +1,220 @@
+//! Verification hooks (compiled only under `--cfg tonbo_verif`).
+//!
+//! Thin wrappers that let an external harness step the maintenance actions that otherwise run
+//! only on thresholds, timers or background workers. They add no behaviour of their own.
+
+use std::sync::Arc;
+
+use fusio::executor::{Executor, Timer};
+
+use crate::{
+    compaction::executor::LocalCompactionExecutor,
+    db::{CompactionStrategy, DB, MinorCompactionState, SealPolicy},
+    manifest::ManifestFs,
+    ondisk::sstable::SsTableError,
+};
+
+/// Owned primary key, as taken by point reads and deletes.
+pub use crate::key::KeyOwned;
+/// Commit timestamp.
+pub use crate::mvcc::Timestamp;
+/// Read snapshot handle and transaction outcomes.
+pub use crate::transaction::{Snapshot, TransactionCommitError};
+/// WAL tuning enums.
+pub use crate::wal::{WalRecoveryMode, WalSyncPolicy};
+
+/// One SST as recorded in the latest manifest version.
+#[derive(Debug, Clone)]
+pub struct SstInfo {
+    /// Level the table lives on.
+    pub level: usize,
+    /// Raw table identifier.
+    pub id: u64,
+    /// Recorded row count, if statistics are present.
+    pub rows: Option<usize>,
+    /// Recorded tombstone count, if statistics are present.
+    pub tombstones: Option<usize>,
+    /// Debug rendering of the recorded smallest key.
+    pub min_key: Option<String>,
+    /// Debug rendering of the recorded largest key.
+    pub max_key: Option<String>,
+    /// Smallest recorded commit timestamp.
+    pub min_commit_ts: Option<u64>,
+    /// Largest recorded commit timestamp.
+    pub max_commit_ts: Option<u64>,
+    /// Path of the data file.
+    pub data_path: String,
+    /// Path of the delete sidecar, if any.
+    pub delete_path: Option<String>,
+}
+
+/// Seal the mutable memtable; returns the number of sealed segments waiting to be flushed.
+pub fn seal<FS, E>(db: &DB<FS, E>) -> Result<usize, String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    db.inner.verif_seal_now().map_err(|e| e.to_string())?;
+    Ok(db.inner.num_immutable_segments())
+}
+
+/// Number of sealed segments waiting to be flushed.
+pub fn immutable_count<FS, E>(db: &DB<FS, E>) -> usize
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    db.inner.num_immutable_segments()
+}
+
+fn minor<FS, E>(db: &DB<FS, E>) -> Result<&MinorCompactionState, String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    db.inner
+        .minor_compaction
+        .as_ref()
+        .ok_or_else(|| "minor compaction disabled".to_string())
+}
+
+/// Flush every sealed segment into one new SST; `Ok(false)` when there was nothing to flush.
+pub async fn flush<FS, E>(db: &DB<FS, E>) -> Result<bool, String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    let state = minor(db)?;
+    let _guard = state.lock.lock().await;
+    if db.inner.num_immutable_segments() == 0 {
+        return Ok(false);
+    }
+    let descriptor = state.compactor.verif_next_descriptor();
+    match db
+        .inner
+        .flush_immutables_with_descriptor(Arc::clone(&state.config), descriptor)
+        .await
+    {
+        Ok(_) => Ok(true),
+        Err(SsTableError::NoImmutableSegments) => Ok(false),
+        Err(err) => Err(err.to_string()),
+    }
+}
+
+/// Plan and run at most one major compaction through the scheduled-compaction path.
+pub async fn compact_once<FS, E>(
+    db: &DB<FS, E>,
+    strategy: CompactionStrategy,
+    max_output_rows: Option<usize>,
+    max_output_bytes: Option<usize>,
+) -> Result<bool, String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    let state = minor(db)?;
+    let mut exec = LocalCompactionExecutor::with_id_allocator(
+        Arc::clone(&state.config),
+        state.compactor.verif_id_allocator(),
+    );
+    if let Some(rows) = max_output_rows {
+        exec = exec.with_max_output_rows(rows);
+    }
+    if let Some(bytes) = max_output_bytes {
+        exec = exec.with_max_output_bytes(bytes);
+    }
+    db.inner
+        .compaction_driver()
+        .verif_compact_once(&strategy.build(), &exec)
+        .await
+        .map_err(|e| e.to_string())
+}
+
+/// Run the WAL garbage collection step that follows flushes and compactions.
+pub async fn prune_wal<FS, E>(db: &DB<FS, E>)
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    db.inner.prune_wal_segments_below_floor().await
+}
+
+/// Ask the WAL writer to rotate its active segment; a no-op without a WAL.
+pub async fn rotate_wal<FS, E>(db: &DB<FS, E>) -> Result<(), String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    if let Some(handle) = db.inner.wal_handle().cloned() {
+        handle.rotate().await.map_err(|e| e.to_string())?;
+    }
+    Ok(())
+}
+
+/// The SSTs of the latest manifest version.
+pub async fn ssts<FS, E>(db: &DB<FS, E>) -> Result<Vec<SstInfo>, String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    let snapshot = db
+        .inner
+        .manifest
+        .snapshot_latest_with_fallback(db.inner.manifest_table, &db.inner.table_meta)
+        .await
+        .map_err(|e| e.to_string())?;
+    let mut out = Vec::new();
+    if let Some(version) = snapshot.latest_version.as_ref() {
+        for (level, entries) in version.ssts().iter().enumerate() {
+            for entry in entries {
+                let stats = entry.stats();
+                out.push(SstInfo {
+                    level,
+                    id: entry.sst_id().raw(),
+                    rows: stats.map(|s| s.rows),
+                    tombstones: stats.map(|s| s.tombstones),
+                    min_key: stats.and_then(|s| s.min_key.as_ref().map(|k| format!("{k:?}"))),
+                    max_key: stats.and_then(|s| s.max_key.as_ref().map(|k| format!("{k:?}"))),
+                    min_commit_ts: stats.and_then(|s| s.min_commit_ts.map(|t| t.get())),
+                    max_commit_ts: stats.and_then(|s| s.max_commit_ts.map(|t| t.get())),
+                    data_path: entry.data_path().to_string(),
+                    delete_path: entry.delete_path().map(|p| p.to_string()),
+                });
+            }
+        }
+    }
+    Ok(out)
+}
+
+/// Sequence of the oldest WAL segment the manifest still requires, if any.
+pub async fn wal_floor_seq<FS, E>(db: &DB<FS, E>) -> Option<u64>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    db.inner.manifest_wal_floor().await.map(|f| f.seq())
+}
+
+/// Replace the seal policy; must be called before the handle is cloned.
+pub fn set_seal_policy<FS, E>(
+    db: &mut DB<FS, E>,
+    policy: Arc<dyn SealPolicy + Send + Sync>,
+) -> Result<(), String>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    let inner = Arc::get_mut(&mut db.inner).ok_or("database handle is shared")?;
+    inner.policy = policy;
+    Ok(())
+}
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1a7e49e..b081883 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -154,6 +154,12 @@ where
         Ok(())
     }
 
+    /// Verification hook: seal the mutable memtable now.
+    #[cfg(tonbo_verif)]
+    pub(crate) fn verif_seal_now(&self) -> Result<(), KeyExtractError> {
+        self.seal_mutable_now()
+    }
+
     pub(crate) fn apply_committed_batch(
         &self,
         batch: RecordBatch,
-- 
2.43.0


From 64014289aca856706f360d4f6d71154f1e975a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 02/21] fix: include delete timestamps in a sealed memtable's
 commit bounds

A sealed memtable whose only versions visible to a snapshot are deletes was
pruned from that snapshot's scans, resurrecting the deleted rows.
---
 src/inmem/immutable/memtable.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..caa23ef 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,12 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        // Deletes live in the sidecar, so their timestamps count as well.
+        let mut iter = self
+            .mvcc
+            .commit_ts
+            .iter()
+            .chain(self.deletes.commit_ts.iter());
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From b775ffdefe99cb8a73409b7756b8226b76ed0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:42 +0000
Subject: [PATCH 03/21] fix: keep a snapshot's rows visible after they are
 flushed

A scan over a held snapshot (or transaction) read memory at scan time but only
the SSTs of the manifest version pinned at snapshot time, so rows flushed in
between vanished.  Plans now also read SSTs published after the pinned version
(timestamps filter newer rows), and capture immutable memtables by reference so
that a flush between planning and execution cannot drop them.
---
 src/db/scan.rs    | 106 ++++++++++++++++++++++++++++++++++------------
 src/query/scan.rs |   6 ++-
 2 files changed, 83 insertions(+), 29 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..231579f 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -32,6 +32,7 @@ use crate::{
         mutable::memtable::DynRowScanEntry,
     },
     key::{KeyOwned, KeyRow},
+    manifest::SstEntry,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -213,18 +214,8 @@ impl TxSnapshot {
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
         let key_range = key_range_for_predicate(predicate, &key_schema);
-        let (immutable_indexes, immutable_row_sets) = {
-            let seal = db.seal_state_lock();
-            let prune_input: Vec<&ImmutableSegment> =
-                seal.immutables.iter().map(|arc| arc.as_ref()).collect();
-            let indexes = immutable::prune_segments(&prune_input, key_bounds.as_ref(), read_ts);
-            let row_sets = indexes
-                .iter()
-                .filter_map(|idx| seal.immutables.get(*idx))
-                .map(|segment| RowSet::all(segment.entry_count()))
-                .collect();
-            (indexes, row_sets)
-        };
+        // Capture in the order rows move (mutable, immutable, SST) so that none slips between
+        // sources while the plan is built.
         let mutable_row_set = {
             let row_count = db.mem.row_count();
             if row_count == 0 {
@@ -251,6 +242,19 @@ impl TxSnapshot {
                 }
             }
         };
+        let immutables = db.seal_state_lock().immutables.clone();
+        let (immutable_indexes, immutable_row_sets) = {
+            let prune_input: Vec<&ImmutableSegment> =
+                immutables.iter().map(|arc| arc.as_ref()).collect();
+            let indexes = immutable::prune_segments(&prune_input, key_bounds.as_ref(), read_ts);
+            let row_sets = indexes
+                .iter()
+                .filter_map(|idx| immutables.get(*idx))
+                .map(|segment| RowSet::all(segment.entry_count()))
+                .collect();
+            (indexes, row_sets)
+        };
+        let sst_entries = self.visible_sst_entries(db).await?;
         let fs = Arc::clone(&db.fs);
         let executor: E = (**db.executor()).clone();
         let prune_ctx = PruneContext {
@@ -271,15 +275,7 @@ impl TxSnapshot {
         residual_predicate = combine_predicates_with_and(residual_predicate, non_sst_residual);
         let mut sst_selections = Vec::new();
         let mut sst_requires_full_residual = false;
-        for entry in self
-            .table_snapshot()
-            .latest_version
-            .as_ref()
-            .map(|v| v.ssts())
-            .unwrap_or(&[])
-            .iter()
-            .flatten()
-        {
+        for entry in &sst_entries {
             if let Some(bounds) = key_bounds.as_ref() {
                 if bounds.is_empty() {
                     continue;
@@ -352,6 +348,7 @@ impl TxSnapshot {
         }
         Ok(ScanPlan {
             pushdown_predicate,
+            immutables,
             immutable_indexes,
             mutable_row_set,
             immutable_row_sets,
@@ -371,6 +368,51 @@ impl TxSnapshot {
             _snapshot: self.table_snapshot().clone(),
         })
     }
+
+    /// SSTs that may hold rows visible to this snapshot.
+    ///
+    /// Rows that were in memory when the snapshot was taken may have been flushed since, so the
+    /// SSTs published after the pinned version are included too; rows committed after the
+    /// snapshot are filtered out by their timestamps.
+    async fn visible_sst_entries<FS, E>(
+        &self,
+        db: &DbInner<FS, E>,
+    ) -> Result<Vec<SstEntry>, crate::db::DBError>
+    where
+        FS: crate::manifest::ManifestFs<E>,
+        E: Executor + Timer + Clone,
+        <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+    {
+        let pinned = self.table_snapshot();
+        let pinned_txn = pinned.latest_version.as_ref().map(|v| v.commit_timestamp());
+        let mut entries: Vec<SstEntry> = pinned
+            .latest_version
+            .iter()
+            .flat_map(|version| version.ssts().iter().flatten().cloned())
+            .collect();
+        // Historical (time travel) snapshots read exactly the files of their version.
+        if pinned.head.last_manifest_txn != pinned_txn {
+            return Ok(entries);
+        }
+        let current = db
+            .manifest
+            .snapshot_latest_with_fallback(db.manifest_table, &db.table_meta)
+            .await?;
+        if current.head.last_manifest_txn == pinned_txn {
+            return Ok(entries);
+        }
+        for version in db.manifest.list_versions(db.manifest_table, 0).await? {
+            if pinned_txn.is_some_and(|txn| version.commit_timestamp() <= txn) {
+                continue;
+            }
+            for entry in version.ssts().iter().flatten() {
+                if !entries.iter().any(|known| known.sst_id() == entry.sst_id()) {
+                    entries.push(entry.clone());
+                }
+            }
+        }
+        Ok(entries)
+    }
 }
 
 async fn prune_sst_selection<E>(
@@ -686,13 +728,21 @@ where
             streams.push(ScanStream::from(mutable_scan));
         }
 
-        let immutables: Vec<Arc<ImmutableSegment>> = {
-            let seal = self.seal_state_lock();
-            plan.immutable_indexes
-                .iter()
-                .filter_map(|idx| seal.immutables.get(*idx).cloned())
-                .collect()
-        };
+        let mut immutables: Vec<Arc<ImmutableSegment>> = plan
+            .immutable_indexes
+            .iter()
+            .filter_map(|idx| plan.immutables.get(*idx).cloned())
+            .collect();
+        if !plan.mutable_row_set.is_empty() {
+            // The mutable memtable may have been sealed since the plan was built.
+            immutables.extend(
+                self.seal_state_lock()
+                    .immutables
+                    .iter()
+                    .filter(|seg| !plan.immutables.iter().any(|known| Arc::ptr_eq(known, seg)))
+                    .cloned(),
+            );
+        }
         for segment in immutables {
             let owned = match &plan.immutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedImmutableScan::from_arc(
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 2401a59..8a8dbb3 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -16,6 +16,7 @@ use thiserror::Error;
 
 use crate::{
     extractor::KeyExtractError,
+    inmem::immutable::ImmutableSegment,
     key::KeyOwned,
     manifest::{SstEntry, TableSnapshot},
     mvcc::Timestamp,
@@ -434,7 +435,9 @@ impl<'a> Iterator for RowSetIter<'a> {
 /// * pushdown_predicate: predicate portion safe for Parquet row filtering
 /// * residual_predicate: predicate portion to evaluate after merge/materialization
 /// * range_set: cached primary-key ranges derived from the predicate for pruning
-/// * immutable_memtable_idxes: which immutable memtables need to be scanned in execution phase
+/// * immutables: the immutable memtables captured at plan time
+/// * immutable_memtable_idxes: which captured immutable memtables need to be scanned in execution
+///   phase
 /// * selections: per-source row selections (memtables default to all rows in this phase)
 /// * row_sets: per-source row sets capturing planned pruning results
 /// * ssts: level-ed sstable where entry contains the identifier and its corresponding selection
@@ -442,6 +445,7 @@ impl<'a> Iterator for RowSetIter<'a> {
 /// * read_ts: snapshot/read timestamp
 pub(crate) struct ScanPlan {
     pub(crate) pushdown_predicate: Option<Expr>,
+    pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
     pub(crate) immutable_indexes: Vec<usize>,
     pub(crate) mutable_row_set: RowSet,
     pub(crate) immutable_row_sets: Vec<RowSet>,
-- 
2.43.0


From 01324cc652bf5b94fcdd6dbd37d9944312cf3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:44 +0000
Subject: [PATCH 04/21] fix: let transactions see rows that left memory

Transaction::get only read the memtables (ignoring sealed tombstones) and commit
only looked for conflicts there, so once a row was flushed a point read missed it
and a conflicting commit went through (lost update).  Both now also consult the
SSTs, restricted by their key and commit timestamp bounds.
---
 src/db/scan.rs         | 338 ++++++++++++++++++++++++++---------------
 src/transaction/mod.rs |  58 +++----
 2 files changed, 242 insertions(+), 154 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 231579f..204dd70 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1,6 +1,7 @@
 use std::{
     collections::{BTreeMap, BTreeSet},
-    pin::Pin,
+    ops::Bound,
+    pin::{Pin, pin},
     sync::Arc,
     time::Instant,
 };
@@ -31,15 +32,15 @@ use crate::{
         immutable::{self, ImmutableSegment, memtable::ImmutableVisibleEntry},
         mutable::memtable::DynRowScanEntry,
     },
-    key::{KeyOwned, KeyRow},
+    key::KeyOwned,
     manifest::SstEntry,
     mode::fingerprint_schema,
     mutation::DynMutation,
-    mvcc::{MVCC_COMMIT_COL, Timestamp},
+    mvcc::{MVCC_COMMIT_COL, ReadView, Timestamp},
     ondisk::{
         bloom::{BatchedAsyncReader, BloomFilterCache, SstBloomFilterProvider},
         metadata::ParquetMetadataCache,
-        scan::{DeleteStreamWithExtractor, SstableScan, UnpinExec},
+        scan::{DeleteStreamWithExtractor, SstableScan, SstableVisibleEntry, UnpinExec},
         sstable::{
             ParquetStreamOptions, SsTableError, open_parquet_stream_with_metadata,
             split_predicate_for_row_filter, validate_page_indexes,
@@ -53,8 +54,8 @@ use crate::{
             projection_with_predicate,
         },
         stream::{
-            Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
-            package::PackageStream,
+            Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamError,
+            merge::MergeStream, package::PackageStream,
         },
     },
     transaction::{Snapshot as TxSnapshot, TransactionScan},
@@ -709,7 +710,6 @@ where
             streams.push(ScanStream::from(txn_scan));
         }
         let scan_schema = Arc::clone(&plan.scan_schema);
-        let key_schema = self.extractor().key_schema();
         if !plan.mutable_row_set.is_empty() {
             let mutable_scan = match &plan.mutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedMutableScan::from_guard(
@@ -763,151 +763,228 @@ where
 
         // Add SSTable scans for each SST entry in the plan
         for sst in plan.sst_selections() {
-            let selection = match &sst.selection {
-                ScanSelection::Sst(selection) => selection,
-                ScanSelection::AllRows => {
-                    return Err(crate::db::DBError::SsTable(
-                        SsTableError::InvalidScanSelection {
-                            selection: "AllRows",
-                        },
-                    ));
-                }
-                ScanSelection::KeyRange(_) => {
-                    return Err(crate::db::DBError::SsTable(
-                        SsTableError::InvalidScanSelection {
-                            selection: "KeyRange",
-                        },
-                    ));
-                }
-            };
-            let data_path = sst.entry.data_path().clone();
-            let executor: E = (**self.executor()).clone();
+            streams.push(ScanStream::from(self.open_sst_scan(plan, sst).await?));
+        }
 
-            let projected_schema = Arc::clone(&selection.projected_schema);
-            let projection_indices = schema_projection_indices(&projected_schema, &scan_schema)?;
-            let key_indices = schema_projection_indices(&projected_schema, &key_schema)?;
-            let data_extractor: Arc<dyn KeyProjection> =
-                projection_for_columns(projected_schema, key_indices)?.into();
+        Ok(streams)
+    }
+
+    /// Open the row stream of one planned SST: its newest visible version per key.
+    async fn open_sst_scan(
+        &self,
+        plan: &ScanPlan,
+        sst: &SstScanSelection,
+    ) -> Result<SstableScan<E>, crate::db::DBError> {
+        let scan_schema = &plan.scan_schema;
+        let key_schema = self.extractor().key_schema();
+        let selection = match &sst.selection {
+            ScanSelection::Sst(selection) => selection,
+            ScanSelection::AllRows => {
+                return Err(crate::db::DBError::SsTable(
+                    SsTableError::InvalidScanSelection {
+                        selection: "AllRows",
+                    },
+                ));
+            }
+            ScanSelection::KeyRange(_) => {
+                return Err(crate::db::DBError::SsTable(
+                    SsTableError::InvalidScanSelection {
+                        selection: "KeyRange",
+                    },
+                ));
+            }
+        };
+        let data_path = sst.entry.data_path().clone();
+        let executor: E = (**self.executor()).clone();
+
+        let projected_schema = Arc::clone(&selection.projected_schema);
+        let projection_indices = schema_projection_indices(&projected_schema, scan_schema)?;
+        let key_indices = schema_projection_indices(&projected_schema, &key_schema)?;
+        let data_extractor: Arc<dyn KeyProjection> =
+            projection_for_columns(projected_schema, key_indices)?.into();
+
+        let options = ParquetStreamOptions {
+            projection: Some(selection.projection.clone()),
+            row_groups: selection.row_groups.clone(),
+            row_selection: selection.row_set.to_row_selection(),
+            row_filter_predicate: plan.pushdown_predicate.as_ref(),
+        };
+        let data_stream = open_parquet_stream_with_metadata(
+            Arc::clone(&self.fs),
+            data_path,
+            Arc::clone(&selection.metadata),
+            options,
+            executor.clone(),
+        )
+        .await
+        .map_err(crate::db::DBError::SsTable)?;
 
+        // Open delete sidecar stream if present (streaming merge, no eager loading)
+        let delete_stream_with_extractor = if let Some(delete_path) = sst.entry.delete_path() {
+            let delete_selection = selection.delete_selection.as_ref().ok_or_else(|| {
+                crate::db::DBError::SsTable(SsTableError::InvalidScanSelection {
+                    selection: "missing delete sidecar selection",
+                })
+            })?;
+            let delete_path = delete_path.clone();
             let options = ParquetStreamOptions {
-                projection: Some(selection.projection.clone()),
-                row_groups: selection.row_groups.clone(),
-                row_selection: selection.row_set.to_row_selection(),
-                row_filter_predicate: plan.pushdown_predicate.as_ref(),
+                projection: Some(delete_selection.projection.clone()),
+                row_groups: None,
+                row_selection: None,
+                row_filter_predicate: None,
             };
-            let data_stream = open_parquet_stream_with_metadata(
+            let stream = open_parquet_stream_with_metadata(
                 Arc::clone(&self.fs),
-                data_path,
-                Arc::clone(&selection.metadata),
+                delete_path,
+                Arc::clone(&delete_selection.metadata),
                 options,
                 executor.clone(),
             )
             .await
             .map_err(crate::db::DBError::SsTable)?;
+            Some(DeleteStreamWithExtractor {
+                stream,
+                extractor: Arc::clone(self.delete_extractor()),
+            })
+        } else {
+            if selection.delete_selection.is_some() {
+                return Err(crate::db::DBError::SsTable(
+                    SsTableError::InvalidScanSelection {
+                        selection: "unexpected delete sidecar selection",
+                    },
+                ));
+            }
+            None
+        };
 
-            // Open delete sidecar stream if present (streaming merge, no eager loading)
-            let delete_stream_with_extractor = if let Some(delete_path) = sst.entry.delete_path() {
-                let delete_selection = selection.delete_selection.as_ref().ok_or_else(|| {
-                    crate::db::DBError::SsTable(SsTableError::InvalidScanSelection {
-                        selection: "missing delete sidecar selection",
-                    })
-                })?;
-                let delete_path = delete_path.clone();
-                let options = ParquetStreamOptions {
-                    projection: Some(delete_selection.projection.clone()),
-                    row_groups: None,
-                    row_selection: None,
-                    row_filter_predicate: None,
-                };
-                let stream = open_parquet_stream_with_metadata(
-                    Arc::clone(&self.fs),
-                    delete_path,
-                    Arc::clone(&delete_selection.metadata),
-                    options,
-                    executor.clone(),
-                )
-                .await
-                .map_err(crate::db::DBError::SsTable)?;
-                Some(DeleteStreamWithExtractor {
-                    stream,
-                    extractor: Arc::clone(self.delete_extractor()),
-                })
-            } else {
-                if selection.delete_selection.is_some() {
-                    return Err(crate::db::DBError::SsTable(
-                        SsTableError::InvalidScanSelection {
-                            selection: "unexpected delete sidecar selection",
-                        },
-                    ));
-                }
-                None
-            };
-
-            let sstable_scan = SstableScan::new(
-                data_stream,
-                delete_stream_with_extractor,
-                data_extractor,
-                projection_indices,
-                Some(Order::Asc),
-                plan.read_ts,
-            );
-
-            streams.push(ScanStream::from(sstable_scan));
-        }
-
-        Ok(streams)
+        Ok(SstableScan::new(
+            data_stream,
+            delete_stream_with_extractor,
+            data_extractor,
+            projection_indices,
+            Some(Order::Asc),
+            plan.read_ts,
+        ))
     }
 
-    pub(crate) fn scan_immutable_rows_at(
+    /// Newest version of `key` in memory visible at `read_ts`; `None` in the row position is a
+    /// delete.
+    pub(crate) fn mem_version_at(
         &self,
+        key: &KeyOwned,
         read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
+    ) -> Result<Option<KeyVersion>, crate::db::DBError> {
+        let range = || (Bound::Included(key.clone()), Bound::Included(key.clone()));
+        let mut newest: Option<KeyVersion> = None;
+        {
+            let mem = self.mem.read();
+            let (start, end) = range();
+            for entry in mem.scan_visible_in_range(None, read_ts, start, end)? {
+                let version = match entry? {
+                    DynRowScanEntry::Row(key, row) => {
+                        let (_, commit_ts) = key.into_parts();
+                        (commit_ts, Some(row.into_owned()?))
+                    }
+                    DynRowScanEntry::Tombstone(key) => (key.timestamp(), None),
+                };
+                keep_newest(&mut newest, version);
+            }
+        }
         let segments = self.seal_state_lock().immutables.clone();
         for segment in segments {
-            let scan = segment.scan_visible(None, read_ts)?;
-            for result in scan {
-                match result {
-                    Ok(ImmutableVisibleEntry::Row(key_view, row_raw)) => {
-                        let row = row_raw.into_owned().map_err(|err| {
-                            KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                                err.to_string(),
-                            ))
-                        })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
+            let (start, end) = range();
+            for entry in segment.scan_visible_in_range(None, read_ts, start, end)? {
+                let version = match entry? {
+                    ImmutableVisibleEntry::Row(key, row) => {
+                        (key.timestamp(), Some(row.into_owned()?))
                     }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
-                    Err(err) => return Err(KeyExtractError::from(err)),
-                }
+                    ImmutableVisibleEntry::Tombstone(key) => (key.timestamp(), None),
+                };
+                keep_newest(&mut newest, version);
             }
         }
-        Ok(rows)
+        Ok(newest)
     }
 
-    pub(crate) fn scan_mutable_rows_at(
+    /// Newest versions of `keys` in the SSTs visible to `snapshot`, considering only versions
+    /// committed after `newer_than`; `None` in the row position is a delete.
+    pub(crate) async fn sst_versions_at(
         &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let mem = self.mem.read();
-        let scan = mem.scan_visible(None, read_ts)?;
-        for entry in scan {
-            match entry {
-                Ok(DynRowScanEntry::Row(key_view, row_raw)) => {
-                    let row = row_raw.into_owned().map_err(|err| {
-                        KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                            err.to_string(),
-                        ))
-                    })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
+        snapshot: &TxSnapshot,
+        keys: &BTreeSet<KeyOwned>,
+        newer_than: Option<Timestamp>,
+    ) -> Result<BTreeMap<KeyOwned, KeyVersion>, crate::db::DBError> {
+        let mut found = BTreeMap::new();
+        let may_hold = |entry: &SstEntry| {
+            let Some(stats) = entry.stats() else {
+                return true;
+            };
+            if let (Some(newer_than), Some(max_ts)) = (newer_than, stats.max_commit_ts)
+                && max_ts <= newer_than
+            {
+                return false;
+            }
+            match (stats.min_key.as_ref(), stats.max_key.as_ref()) {
+                (Some(min), Some(max)) => keys.iter().any(|key| min <= key && key <= max),
+                _ => true,
+            }
+        };
+        if !snapshot
+            .visible_sst_entries(self)
+            .await?
+            .iter()
+            .any(may_hold)
+        {
+            return Ok(found);
+        }
+        let plan = snapshot.plan_scan(self, &Expr::True, None, None).await?;
+        for sst in plan.sst_selections() {
+            if !may_hold(&sst.entry) {
+                continue;
+            }
+            let mut scan = pin!(self.open_sst_scan(&plan, sst).await?);
+            while let Some(entry) = scan.next().await {
+                let (key, version) = match entry.map_err(StreamError::from)? {
+                    SstableVisibleEntry::Row(row) => {
+                        let key = row.key_ts().key().to_owned();
+                        if !keys.contains(&key) {
+                            continue;
+                        }
+                        let ts = row.key_ts().timestamp();
+                        (key, (ts, Some(row.into_row_owned()?)))
+                    }
+                    SstableVisibleEntry::Tombstone(key_ts) => {
+                        (key_ts.key().clone(), (key_ts.timestamp(), None))
+                    }
+                };
+                if !keys.contains(&key) || newer_than.is_some_and(|ts| version.0 <= ts) {
+                    continue;
+                }
+                let mut newest = found.remove(&key);
+                keep_newest(&mut newest, version);
+                if let Some(version) = newest {
+                    found.insert(key, version);
                 }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
-                Err(err) => return Err(KeyExtractError::from(err)),
             }
         }
-        Ok(rows)
+        Ok(found)
+    }
+
+    /// One of `keys` with a flushed version committed after `snapshot_ts`, if any.
+    pub(crate) async fn sst_conflict(
+        &self,
+        keys: &BTreeSet<KeyOwned>,
+        snapshot_ts: Timestamp,
+    ) -> Result<Option<KeyOwned>, crate::db::DBError> {
+        let manifest = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let latest = TxSnapshot::from_table_snapshot(ReadView::new(Timestamp::MAX), manifest);
+        let newer = self
+            .sst_versions_at(&latest, keys, Some(snapshot_ts))
+            .await?;
+        Ok(newer.into_keys().next())
     }
 
     /// Begin building a scan query with fluent API.
@@ -917,6 +994,15 @@ where
     }
 }
 
+/// A version of a key: its commit timestamp and, unless deleted, its row.
+type KeyVersion = (Timestamp, Option<DynRow>);
+
+fn keep_newest(newest: &mut Option<KeyVersion>, version: KeyVersion) {
+    if newest.as_ref().is_none_or(|(ts, _)| *ts < version.0) {
+        *newest = Some(version);
+    }
+}
+
 /// Snapshot source for scan operations.
 ///
 /// Controls whether a scan uses a pre-existing snapshot or creates one lazily.
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..80ba361 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -5,7 +5,11 @@
 //! snapshot-bound scans with read-your-writes semantics. It integrates with the DB’s MVCC
 //! clock and manifest/WAL plumbing for durable commits.
 
-use std::{collections::BTreeMap, fmt, sync::Arc};
+use std::{
+    collections::{BTreeMap, BTreeSet},
+    fmt,
+    sync::Arc,
+};
 
 use arrow_array::RecordBatch;
 use arrow_schema::{Fields, SchemaRef};
@@ -464,8 +468,19 @@ where
                 DynMutation::Delete(_) => None,
             });
         }
-        let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        // Memory is read before the SSTs: rows only move from the former to the latter.
+        let in_mem = self.handle.mem_version_at(key, self.read_ts())?;
+        let on_disk = self
+            .handle
+            .sst_versions_at(&self._snapshot, &BTreeSet::from([key.clone()]), None)
+            .await?
+            .remove(key);
+        let newest = match (in_mem, on_disk) {
+            (Some(mem), Some(disk)) if disk.0 > mem.0 => Some(disk),
+            (Some(mem), _) => Some(mem),
+            (None, disk) => disk,
+        };
+        Ok(newest.and_then(|(_, row)| row))
     }
 
     /// Begin building a scan query with fluent API.
@@ -529,31 +544,6 @@ where
         Ok(())
     }
 
-    fn read_mutable_rows<C>(
-        &self,
-        db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
-    where
-        C: crate::manifest::ManifestFs<E>,
-        <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
-    {
-        let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
-            .scan_mutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
-        }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
-        }
-        Ok(out)
-    }
-
     /// Commit the staged mutations into the supplied DB, ensuring WAL durability first.
     pub async fn commit(self) -> Result<(), TransactionCommitError>
     where
@@ -594,6 +584,15 @@ where
                 return Err(TransactionCommitError::WriteConflict(key.clone()));
             }
         }
+        // Writes committed since the snapshot may have been flushed out of memory already.
+        let keys = staged.entries().keys().cloned().collect();
+        if let Some(key) = db
+            .sst_conflict(&keys, snapshot_ts)
+            .await
+            .map_err(|err| TransactionCommitError::ConflictCheck(Box::new(err)))?
+        {
+            return Err(TransactionCommitError::WriteConflict(key));
+        }
 
         let commit_ts = db.next_commit_ts();
         let (rows, delete_keys) = staged.into_mutations();
@@ -1453,6 +1452,9 @@ pub enum TransactionCommitError {
     /// Applying the committed batch into the mutable table failed.
     #[error("failed to apply committed batch: {0}")]
     Apply(#[from] KeyExtractError),
+    /// Reading the table to detect conflicts failed.
+    #[error("failed to check for conflicts: {0}")]
+    ConflictCheck(#[source] Box<dyn std::error::Error + Send + Sync>),
     /// Another transaction committed between snapshot acquisition and commit.
     #[error("write conflict on key {0:?}")]
     WriteConflict(KeyOwned),
-- 
2.43.0


From fd526d3818b28995da53522f35580e4ab65f1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 05/21] fix: merge an SST's data and delete rows independently
 during compaction

The merge cursor consumed a source in pairs of (data batch, delete batch) and only
fetched the next pair when both were used up.  The two batches cover unrelated key
ranges, so with more than one batch per file keys came out of order and deletes (or
newer rows) could lose to older versions.
---
 src/ondisk/merge.rs | 188 ++++++++++++++++++++------------------------
 1 file changed, 86 insertions(+), 102 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..6013d28 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -136,13 +136,41 @@ impl PartialOrd for HeapEntry {
     }
 }
 
+/// Cursor over the rows of one kind (data or deletes) of a source.
+#[derive(Default)]
+struct RowCursor {
+    batch: Option<RecordBatch>,
+    idx: usize,
+    /// Batches read ahead while the other kind was being refilled.
+    pending: VecDeque<RecordBatch>,
+}
+
+impl RowCursor {
+    /// Move to the next non-exhausted batch already read; false if there is none.
+    fn settle(&mut self) -> bool {
+        loop {
+            if let Some(batch) = &self.batch
+                && self.idx < batch.num_rows()
+            {
+                return true;
+            }
+            self.idx = 0;
+            self.batch = self.pending.pop_front();
+            if self.batch.is_none() {
+                return false;
+            }
+        }
+    }
+}
+
+/// Data and delete rows of a source are each in key order but arrive in batches whose key ranges
+/// are unrelated, so the two kinds advance independently.
 struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
-    data_idx: usize,
-    delete_idx: usize,
+    data: RowCursor,
+    delete: RowCursor,
 }
 
 impl SourceCursor {
@@ -155,19 +183,28 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
-            data_idx: 0,
-            delete_idx: 0,
+            data: RowCursor::default(),
+            delete: RowCursor::default(),
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    fn rows(&mut self, kind: RowKind) -> &mut RowCursor {
+        match kind {
+            RowKind::Data => &mut self.data,
+            RowKind::Delete => &mut self.delete,
         }
-        Ok(())
+    }
+
+    /// Position on the next row of `kind`; false once the source has no more of them.
+    async fn ensure_row(&mut self, kind: RowKind) -> Result<bool, SsTableError> {
+        while !self.rows(kind).settle() {
+            let Some(batch) = self.source.next().await? else {
+                return Ok(false);
+            };
+            self.data.pending.push_back(batch.data);
+            self.delete.pending.extend(batch.delete);
+        }
+        Ok(true)
     }
 
     async fn enqueue(
@@ -176,113 +213,62 @@ impl SourceCursor {
         heap: &mut BinaryHeap<HeapEntry>,
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
-        loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
+        while self.ensure_row(kind).await? {
+            let extractor = Arc::clone(&self.extractor);
+            let source_idx = self.source_idx;
+            let rows = self.rows(kind);
+            let row_idx = rows.idx;
+            let Some(batch) = rows.batch.as_ref() else {
                 return Ok(());
             };
-
-            match kind {
-                RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
-                        return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.data_idx,
-                    });
-                    return Ok(());
-                }
-                RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
-                        return Ok(());
-                    };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_delete_key_at(
-                        delete_batch,
-                        self.extractor.as_ref(),
-                        self.delete_idx,
-                    )?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at_delete(delete_batch, self.delete_idx)?;
-                    let seq = sequence_at_delete(delete_batch, self.delete_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.delete_idx,
-                    });
-                    return Ok(());
-                }
+            let key = match kind {
+                RowKind::Data => extract_key_at(batch, extractor.as_ref(), row_idx)?,
+                RowKind::Delete => extract_delete_key_at(batch, extractor.as_ref(), row_idx)?,
+            };
+            if skip_key.is_some_and(|k| k == &key) {
+                self.advance(kind);
+                continue;
             }
+            let (commit_ts, seq) = match kind {
+                RowKind::Data => (commit_ts_at(batch, row_idx)?, sequence_at(batch, row_idx)?),
+                RowKind::Delete => (
+                    commit_ts_at_delete(batch, row_idx)?,
+                    sequence_at_delete(batch, row_idx)?,
+                ),
+            };
+            heap.push(HeapEntry {
+                key,
+                commit_ts,
+                seq,
+                kind,
+                source_idx,
+                row_idx,
+            });
+            return Ok(());
         }
+        Ok(())
     }
 
     fn advance(&mut self, kind: RowKind) {
-        match kind {
-            RowKind::Data => self.data_idx += 1,
-            RowKind::Delete => self.delete_idx += 1,
-        }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
-        }
+        self.rows(kind).idx += 1;
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.batch.as_ref() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(batch) = self.delete.batch.as_ref() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let delete = take_record_batch(delete_batch, &index)?;
+        let delete = take_record_batch(batch, &index)?;
         output.push_delete(delete);
         Ok(())
     }
@@ -689,9 +675,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From 5696a1405308d45e247164f74d60e105524ac43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 06/21] fix: never reuse provisional ids of frames still in the
 log

---
 src/wal/storage.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..62133d2 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -276,9 +276,19 @@ impl WalStorage {
             buffer,
         } = self.scan_tail(&active.path).await?;
 
-        let last_frame_seq = last.as_ref().map(|meta| meta.seq);
-        let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
+        let mut newest = last.map(|meta| (meta.seq, meta.provisional_id));
+        // A freshly rotated segment holds no frames yet; the sequences continue from the newest
+        // segment that does, so identifiers of frames still in the log are never reused.
+        for descriptor in completed.iter().rev() {
+            if newest.is_some() {
+                break;
+            }
+            let scan = self.scan_tail(&descriptor.path).await?;
+            newest = scan.last.map(|meta| (meta.seq, meta.provisional_id));
+        }
+        let last_frame_seq = newest.map(|(seq, _)| seq);
+        let last_provisional_id = newest.and_then(|(_, id)| id);
 
         let mut truncated_tail = truncated;
         if !truncated_tail {
@@ -371,9 +381,13 @@ impl WalStorage {
                 _ => None,
             };
 
+            // Concurrent writers may log their frames out of provisional id order.
+            let seen_id = last
+                .as_ref()
+                .and_then(|meta: &FrameTailMeta| meta.provisional_id);
             last = Some(FrameTailMeta {
                 seq: header.seq,
-                provisional_id,
+                provisional_id: provisional_id.max(seen_id),
                 end_offset: payload_end,
             });
             offset = payload_end;
-- 
2.43.0


From 4423c939a2a175e82d9e926105e8fa1d17ab3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 07/21] fix: never reuse the id of an SST file left by an
 interrupted flush or compaction

---
 src/db/builder.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..69fb58d 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -8,6 +8,7 @@ use arrow_schema::SchemaRef;
 use fusio::{
     DynFs, Fs,
     dynamic::{MaybeSend, MaybeSync},
+    error::Error as FusioError,
     executor::{Executor, Timer},
     fs::FsCas as FusioCas,
     mem::fs::InMemoryFs,
@@ -16,6 +17,7 @@ use fusio::{
 #[cfg(feature = "tokio")]
 use fusio::{disk::LocalFs, executor::tokio::TokioExecutor};
 use fusio_manifest::{CheckpointStoreImpl, HeadStoreImpl, LeaseStoreImpl, SegmentStoreImpl};
+use futures::StreamExt;
 use thiserror::Error;
 
 use super::{DB, DbInner, MinorCompactionState};
@@ -1087,7 +1089,7 @@ where
             .map_err(DbBuildError::Manifest)?;
         let manifest_table = table_meta.table_id;
         let sstable_id_allocator = if minor_compaction.is_some() || compaction_options.is_some() {
-            Some(Self::sstable_id_allocator_for_table(&manifest, &table_meta).await?)
+            Some(Self::sstable_id_allocator_for_table(&layout, &manifest, &table_meta).await?)
         } else {
             None
         };
@@ -1619,6 +1621,7 @@ where
     }
 
     async fn sstable_id_allocator_for_table<E>(
+        layout: &StorageLayout<FS>,
         manifest: &TonboManifest<FS, E>,
         table_meta: &TableMeta,
     ) -> Result<Arc<AtomicU64>, DbBuildError>
@@ -1643,6 +1646,13 @@ where
                 next_sstable_id(&versions)
             }
         };
+        // A crashed writer may have left files of a version it never published (and that the
+        // manifest may still adopt); their ids must not be handed out again.
+        let route = layout.sst_route()?;
+        let next_id = match max_stored_sstable_id(route.fs.as_ref(), &route.path).await? {
+            Some(stored) => next_id.max(stored.saturating_add(1)),
+            None => next_id,
+        };
         Ok(Arc::new(AtomicU64::new(next_id)))
     }
 
@@ -1691,7 +1701,7 @@ where
             let sstable_extractor = Arc::clone(&mode_config.extractor);
             let sstable_id_allocator = if minor_compaction.is_some() || compaction_options.is_some()
             {
-                Some(Self::sstable_id_allocator_for_table(&manifest, &table_meta).await?)
+                Some(Self::sstable_id_allocator_for_table(&layout, &manifest, &table_meta).await?)
             } else {
                 None
             };
@@ -1778,6 +1788,35 @@ where
     }
 }
 
+/// Highest SST id among the files stored under `root`, referenced by the manifest or not.
+async fn max_stored_sstable_id(fs: &dyn DynFs, root: &Path) -> Result<Option<u64>, DbBuildError> {
+    let list_error = |path: &Path, err: FusioError| DbBuildError::PreparePath {
+        path: path.to_string(),
+        source: io::Error::other(err),
+    };
+    let mut max_id = None;
+    let mut dirs = vec![root.clone()];
+    while let Some(dir) = dirs.pop() {
+        let mut entries = match fs.list(&dir).await {
+            Ok(entries) => entries,
+            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => continue,
+            Err(err) => return Err(list_error(&dir, err)),
+        };
+        while let Some(entry) = entries.next().await {
+            let path = entry.map_err(|err| list_error(&dir, err))?.path;
+            let Some(name) = path.filename() else {
+                continue;
+            };
+            if let Some((stem, "parquet" | "delete.parquet")) = name.split_once('.') {
+                max_id = max_id.max(stem.parse::<u64>().ok());
+            } else if &dir == root && name.starts_with('L') {
+                dirs.push(path);
+            }
+        }
+    }
+    Ok(max_id)
+}
+
 fn next_sstable_id(versions: &[VersionState]) -> u64 {
     let max_id = versions
         .iter()
-- 
2.43.0


From 2ac54fa00b3fb6b4a8231a4469bfdd5418ba72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:21 +0000
Subject: [PATCH 08/21] fix: derive key ranges from predicates in the key
 column's own type

Int32, UInt32 and Float32 key predicates were turned into Int64/UInt64/Float64
keys, which do not compare by value with the stored keys, so memtable scans
returned wrong rows. A literal without an exact key, and `False` on a composite
key, were also treated as enforced by the key range although no range exists.
---
 src/db/scan.rs    | 26 ++++++++++-----------
 src/query/scan.rs | 58 ++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 204dd70..6e43d77 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -8,7 +8,7 @@ use std::{
 
 use aisle::PruneRequest;
 use arrow_array::RecordBatch;
-use arrow_schema::{DataType, Schema, SchemaRef};
+use arrow_schema::{DataType, Field, Schema, SchemaRef};
 use fusio::{
     DynFs,
     executor::{Executor, Mutex, Timer},
@@ -1375,12 +1375,6 @@ fn split_predicate_for_non_sst(predicate: &Expr, key_schema: &SchemaRef) -> NonS
             residual: None,
         };
     }
-    if matches!(predicate, Expr::False) {
-        return NonSstPredicateSplit {
-            pushdown: Some(Expr::False),
-            residual: None,
-        };
-    }
     if key_schema.fields().len() != 1 {
         return NonSstPredicateSplit {
             pushdown: None,
@@ -1393,14 +1387,16 @@ fn split_predicate_for_non_sst(predicate: &Expr, key_schema: &SchemaRef) -> NonS
             residual: Some(predicate.clone()),
         };
     };
-    split_predicate_for_non_sst_inner(predicate, key_field.name(), key_field.data_type())
+    split_predicate_for_non_sst_inner(predicate, key_schema, key_field)
 }
 
 fn split_predicate_for_non_sst_inner(
     predicate: &Expr,
-    key_column: &str,
-    key_type: &DataType,
+    key_schema: &SchemaRef,
+    key_field: &Field,
 ) -> NonSstPredicateSplit {
+    let key_column = key_field.name();
+    let key_type = key_field.data_type();
     match predicate {
         Expr::True => NonSstPredicateSplit {
             pushdown: None,
@@ -1411,7 +1407,11 @@ fn split_predicate_for_non_sst_inner(
             residual: None,
         },
         Expr::Cmp { column, op, .. } => {
-            if column != key_column || matches!(op, aisle::CmpOp::NotEq) {
+            // Without a key range for the literal nothing enforces the comparison.
+            if column != key_column
+                || matches!(op, aisle::CmpOp::NotEq)
+                || key_bounds_for_predicate(predicate, key_schema).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1423,7 +1423,7 @@ fn split_predicate_for_non_sst_inner(
             }
         }
         Expr::Between { column, .. } => {
-            if column != key_column {
+            if column != key_column || key_bounds_for_predicate(predicate, key_schema).is_none() {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1458,7 +1458,7 @@ fn split_predicate_for_non_sst_inner(
             let mut pushdown = Vec::new();
             let mut residual = Vec::new();
             for child in children {
-                let split = split_predicate_for_non_sst_inner(child, key_column, key_type);
+                let split = split_predicate_for_non_sst_inner(child, key_schema, key_field);
                 if let Some(expr) = split.pushdown {
                     pushdown.push(expr);
                 }
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 8a8dbb3..17a6538 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -491,8 +491,54 @@ pub(crate) fn key_bounds_for_predicate(
     bounds_from_expr(predicate, key_column, field.data_type())
 }
 
-fn scalar_to_key(value: &ScalarValue) -> Option<KeyOwned> {
-    <KeyOwned as KeyPredicateValue>::from_scalar(value)
+/// Convert a predicate literal to a key of the key column's own type; keys of different types do
+/// not compare by value. `None` when the literal has no exact counterpart in that type.
+fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    match key_type {
+        DataType::Int32 => i32::from_scalar(value).map(KeyOwned::from),
+        DataType::Int64 => i64::from_scalar(value).map(KeyOwned::from),
+        DataType::UInt32 => {
+            let value = unsigned_from_scalar(value)?;
+            u32::try_from(value).ok().map(KeyOwned::from)
+        }
+        DataType::UInt64 => unsigned_from_scalar(value).map(KeyOwned::from),
+        DataType::Float32 => match value {
+            ScalarValue::Float32(Some(v)) => Some(KeyOwned::from(*v)),
+            ScalarValue::Float64(Some(v)) if f64::from(*v as f32) == *v => {
+                Some(KeyOwned::from(*v as f32))
+            }
+            _ => None,
+        },
+        DataType::Float64 => match value {
+            ScalarValue::Float32(_) | ScalarValue::Float64(_) => KeyOwned::from_scalar(value),
+            _ => None,
+        },
+        DataType::Boolean => match value {
+            ScalarValue::Boolean(_) => KeyOwned::from_scalar(value),
+            _ => None,
+        },
+        DataType::Utf8 | DataType::LargeUtf8 => match value {
+            ScalarValue::Utf8(_) | ScalarValue::LargeUtf8(_) | ScalarValue::Utf8View(_) => {
+                KeyOwned::from_scalar(value)
+            }
+            _ => None,
+        },
+        DataType::Binary | DataType::LargeBinary | DataType::FixedSizeBinary(_) => match value {
+            ScalarValue::Binary(_)
+            | ScalarValue::LargeBinary(_)
+            | ScalarValue::BinaryView(_)
+            | ScalarValue::FixedSizeBinary(_, _) => KeyOwned::from_scalar(value),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
+fn unsigned_from_scalar(value: &ScalarValue) -> Option<u64> {
+    match value {
+        ScalarValue::UInt64(Some(v)) => Some(*v),
+        _ => i64::from_scalar(value).and_then(|v| u64::try_from(v).ok()),
+    }
 }
 
 fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Option<KeyBounds> {
@@ -500,7 +546,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
         Expr::True => None,
         Expr::False => Some(KeyBounds::empty()),
         Expr::Cmp { column, op, value } if column == key_column => {
-            let key = scalar_to_key(value)?;
+            let key = scalar_to_key(value, key_type)?;
             let bounds = match op {
                 aisle::CmpOp::Eq => KeyBounds::with_range((key.clone(), true), (key, true)),
                 aisle::CmpOp::NotEq => return None,
@@ -517,8 +563,8 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             high,
             inclusive,
         } if column == key_column => {
-            let low_key = scalar_to_key(low)?;
-            let high_key = scalar_to_key(high)?;
+            let low_key = scalar_to_key(low, key_type)?;
+            let high_key = scalar_to_key(high, key_type)?;
             Some(KeyBounds::with_range(
                 (low_key, *inclusive),
                 (high_key, *inclusive),
@@ -542,7 +588,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             }
             let mut keys = Vec::with_capacity(values.len());
             for value in values {
-                let key = scalar_to_key(value)?;
+                let key = scalar_to_key(value, key_type)?;
                 keys.push(key);
             }
             let min = keys.iter().min().cloned()?;
-- 
2.43.0


From dc9cfbbd990bc0407fa1338f7d66f67db189330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 09/21] fix: do not filter SSTs by non-key columns where
 versions may be superseded

A predicate over value columns was pushed into every SST scan (and used to prune
it) before versions were merged, so a newer version that fails the predicate was
dropped and the older version it supersedes was returned.
---
 src/db/scan.rs    | 57 +++++++++++++++++++++++++++++++++++++++--------
 src/query/scan.rs |  3 ++-
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 6e43d77..5c76848 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -50,8 +50,8 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
-            projection_with_predicate,
+            collect_predicate_columns, key_bounds_for_predicate, key_range_for_predicate,
+            next_prefix_string, projection_with_predicate,
         },
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamError,
@@ -208,9 +208,6 @@ impl TxSnapshot {
         let projection_schema = projected_schema.as_ref().unwrap_or(&db.schema);
         let predicate_scan_schema =
             projection_with_predicate(&db.schema, projection_schema, Some(predicate))?;
-        let split = split_predicate_for_row_filter(predicate, &predicate_scan_schema);
-        let mut pushdown_predicate = split.pushdown;
-        let mut residual_predicate = split.residual;
         let read_ts = self.read_view().read_ts();
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
@@ -273,9 +270,7 @@ impl TxSnapshot {
         } else {
             None
         };
-        residual_predicate = combine_predicates_with_and(residual_predicate, non_sst_residual);
-        let mut sst_selections = Vec::new();
-        let mut sst_requires_full_residual = false;
+        let mut candidates = Vec::new();
         for entry in &sst_entries {
             if let Some(bounds) = key_bounds.as_ref() {
                 if bounds.is_empty() {
@@ -294,10 +289,35 @@ impl TxSnapshot {
             {
                 continue;
             }
+            candidates.push(entry);
+        }
+        // Filtering an SST by anything but the key drops versions that supersede older ones, so
+        // that is only done when no selected source can hold two versions of a key.
+        let single_version = !has_non_sst
+            && !force_predicate_columns
+            && match candidates.as_slice() {
+                [] => true,
+                [entry] => entry.stats().is_some_and(|stats| {
+                    stats.min_commit_ts.is_some() && stats.min_commit_ts == stats.max_commit_ts
+                }),
+                _ => false,
+            };
+        let (sst_predicate, deferred) = if single_version {
+            (predicate.clone(), None)
+        } else {
+            split_key_conjuncts(predicate, &key_schema)
+        };
+        let split = split_predicate_for_row_filter(&sst_predicate, &predicate_scan_schema);
+        let mut pushdown_predicate = split.pushdown;
+        let mut residual_predicate = combine_predicates_with_and(split.residual, deferred);
+        residual_predicate = combine_predicates_with_and(residual_predicate, non_sst_residual);
+        let mut sst_selections = Vec::new();
+        let mut sst_requires_full_residual = false;
+        for entry in candidates {
             let (mut selection, requires_residual) = prune_sst_selection(
                 &prune_ctx,
                 entry.data_path(),
-                predicate,
+                &sst_predicate,
                 read_ts,
                 &predicate_scan_schema,
                 &key_schema,
@@ -1362,6 +1382,25 @@ fn find_bloom_filter_column(predicate: &Expr) -> Option<&str> {
     }
 }
 
+/// Split a conjunction into the part that only looks at key columns and the rest.
+fn split_key_conjuncts(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, Option<Expr>) {
+    let conjuncts = match predicate {
+        Expr::And(children) => children.as_slice(),
+        other => std::slice::from_ref(other),
+    };
+    let (key_only, rest): (Vec<Expr>, Vec<Expr>) = conjuncts.iter().cloned().partition(|expr| {
+        let mut columns = BTreeSet::new();
+        collect_predicate_columns(expr, &mut columns);
+        columns
+            .iter()
+            .all(|column| key_schema.field_with_name(column).is_ok())
+    });
+    (
+        combine_and_parts(key_only).unwrap_or(Expr::True),
+        combine_and_parts(rest),
+    )
+}
+
 #[derive(Debug)]
 struct NonSstPredicateSplit {
     pushdown: Option<Expr>,
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 17a6538..f36a7b7 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -729,7 +729,8 @@ fn extend_projection_schema(
     Ok(Arc::new(Schema::new(fields)))
 }
 
-fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
+/// Add the columns a predicate refers to.
+pub(crate) fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
     match predicate {
         Expr::True | Expr::False => {}
         Expr::Cmp { column, .. }
-- 
2.43.0


From 8047c174a47880853e4ff2f896e6a6f7bdcd2fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:50 +0000
Subject: [PATCH 10/21] fix: total order for float keys

NaN compared equal to every key, which breaks sorted merges; it now equals itself
and sorts last. Hashing agrees with equality for both zeros.
---
 src/key/row.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..17076b3 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,16 +323,23 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals itself and sorts after every number.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals itself and sorts after every number.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // Both zeros are the same key.
+        0u8.hash(state);
     } else {
         value.to_bits().hash(state);
     }
@@ -341,6 +348,9 @@ fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
 fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // Both zeros are the same key.
+        0u8.hash(state);
     } else {
         value.to_bits().hash(state);
     }
-- 
2.43.0


From c5d32abd5dfce625f3fb27d42dc81382c190c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:51 +0000
Subject: [PATCH 11/21] fix: keep float keys exact in SST statistics

JSON wrote infinities and NaN as null, so a table with such a key could not be flushed,
and its decimal numbers may load back one bit off, so point reads missed flushed rows.
---
 src/key/owned.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/key/owned.rs b/src/key/owned.rs
index e310566..9d4b043 100644
--- a/src/key/owned.rs
+++ b/src/key/owned.rs
@@ -203,12 +203,45 @@ impl Serialize for KeyOwned {
                 .as_ref()
                 .ok_or_else(|| SerError::custom(format!("key component {idx} was null")))?;
             cell_data_type(value).map_err(|err| SerError::custom(err.to_string()))?;
-            seq.serialize_element(value)?;
+            match value {
+                DynCell::F32(v) => {
+                    seq.serialize_element(&FloatBits::F32Bits(v.to_bits()))?;
+                }
+                DynCell::F64(v) => {
+                    seq.serialize_element(&FloatBits::F64Bits(v.to_bits()))?;
+                }
+                _ => seq.serialize_element(value)?,
+            }
         }
         seq.end()
     }
 }
 
+/// Floats as bit patterns: JSON has no infinities or NaN, and its numbers may not load back exactly.
+#[derive(Serialize, Deserialize)]
+enum FloatBits {
+    F32Bits(u32),
+    F64Bits(u64),
+}
+
+/// Serialized form of one key component.
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum StoredCell {
+    Cell(DynCell),
+    Float(FloatBits),
+}
+
+impl From<StoredCell> for DynCell {
+    fn from(stored: StoredCell) -> Self {
+        match stored {
+            StoredCell::Cell(cell) => cell,
+            StoredCell::Float(FloatBits::F32Bits(bits)) => DynCell::F32(f32::from_bits(bits)),
+            StoredCell::Float(FloatBits::F64Bits(bits)) => DynCell::F64(f64::from_bits(bits)),
+        }
+    }
+}
+
 impl<'de> Deserialize<'de> for KeyOwned {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
@@ -281,8 +314,8 @@ impl<'de> Visitor<'de> for DynCellSeqVisitor {
         A: SeqAccess<'de>,
     {
         let mut cells = Vec::new();
-        while let Some(cell) = seq.next_element::<DynCell>()? {
-            cells.push(cell);
+        while let Some(cell) = seq.next_element::<StoredCell>()? {
+            cells.push(cell.into());
         }
         Ok(cells)
     }
-- 
2.43.0


From ee41d837705b1611b4d057c0c2c1a3b64d061272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 12/21] fix: do not report a durable commit as failed when its
 WAL bookkeeping is not published

---
 src/transaction/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 80ba361..8da4d16 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -636,7 +636,11 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
-                    publish_ctx.finalize_manifest(wal_range).await?;
+                    // The commit is durable and visible by now, so a failure to record its WAL
+                    // segments must not be reported as a failure to commit.
+                    if let Err(err) = publish_ctx.finalize_manifest(wal_range).await {
+                        eprintln!("transaction post-commit publish failed: {err}");
+                    }
                 }
                 CommitAckMode::Fast => {
                     // NOTE: Fast mode has a known limitation - if auto-seal triggers during
-- 
2.43.0


From 410b0268f4a73838821582583de30c367b79c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 13/21] verif: hooks to open tables with small write buffers
 (cfg tonbo_verif)

---
 src/db/verif.rs | 18 +++++++++++++++++-
 src/mode/mod.rs |  8 ++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/db/verif.rs b/src/db/verif.rs
index bb453b1..8807d2e 100644
--- a/src/db/verif.rs
+++ b/src/db/verif.rs
@@ -3,7 +3,7 @@
 //! Thin wrappers that let an external harness step the maintenance actions that otherwise run
 //! only on thresholds, timers or background workers. They add no behaviour of their own.
 
-use std::sync::Arc;
+use std::{cell::Cell, sync::Arc};
 
 use fusio::executor::{Executor, Timer};
 
@@ -14,6 +14,8 @@ use crate::{
     ondisk::sstable::SsTableError,
 };
 
+/// Seal policy interface.
+pub use crate::inmem::policy::{MemStats, SealDecision, SealReason};
 /// Owned primary key, as taken by point reads and deletes.
 pub use crate::key::KeyOwned;
 /// Commit timestamp.
@@ -218,3 +220,17 @@ where
     inner.policy = policy;
     Ok(())
 }
+
+thread_local! {
+    static BATCH_CAPACITY: Cell<usize> =
+        const { Cell::new(crate::inmem::mutable::memtable::DEFAULT_BATCH_CAPACITY) };
+}
+
+/// Batches a write buffer opened by this thread holds before it seals itself.
+pub fn set_batch_capacity(batches: usize) {
+    BATCH_CAPACITY.with(|c| c.set(batches));
+}
+
+pub(crate) fn batch_capacity() -> usize {
+    BATCH_CAPACITY.with(Cell::get)
+}
diff --git a/src/mode/mod.rs b/src/mode/mod.rs
index 79c6a99..4b938ca 100644
--- a/src/mode/mod.rs
+++ b/src/mode/mod.rs
@@ -76,6 +76,14 @@ impl DynModeConfig {
             projection_for_columns(delete_schema.clone(), (0..key_columns).collect())?;
         let delete_projection: Arc<dyn KeyProjection> = delete_projection.into();
 
+        #[cfg(tonbo_verif)]
+        let mutable = DynMem::with_capacity(
+            schema.clone(),
+            extractor,
+            delete_projection,
+            crate::db::verif::batch_capacity(),
+        );
+        #[cfg(not(tonbo_verif))]
         let mutable = DynMem::new(schema.clone(), extractor, delete_projection);
         Ok((schema, delete_schema, commit_ack_mode, mutable))
     }
-- 
2.43.0


From 4c9e8d42803ee48fc7924064c1e098f973b47110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 14/21] fix: let the last row of a key decide when one batch
 upserts and deletes it

The upserts and deletes of a batch were applied one after the other under the
same commit timestamp. When the write buffer filled up in between they ended in
different segments, where the order of equal timestamps is arbitrary, and a
delete that was followed by an upsert of the key always won.
---
 src/db/wal.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/db/wal.rs b/src/db/wal.rs
index b081883..9e53543 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     sync::{Arc, Mutex},
 };
 
@@ -694,9 +694,20 @@ where
     if batch.num_rows() == 0 {
         return Ok((None, None));
     }
+    // Upserts and deletes of one batch share a timestamp, so only the last row of a key may remain
+    // once they are split.
+    let mixed = tombstones.contains(&true) && tombstones.contains(&false);
+    let superseded = if mixed {
+        superseded_rows(db, &batch)?
+    } else {
+        HashSet::new()
+    };
     let mut upsert_indices = Vec::new();
     let mut delete_indices = Vec::new();
     for (idx, tombstone) in tombstones.iter().enumerate() {
+        if superseded.contains(&idx) {
+            continue;
+        }
         if *tombstone {
             delete_indices.push(idx as u32);
         } else {
@@ -714,7 +725,7 @@ where
             None,
         )?)
     };
-    let upsert_batch = if delete_indices.is_empty() {
+    let upsert_batch = if delete_indices.is_empty() && superseded.is_empty() {
         Some(batch)
     } else if upsert_indices.is_empty() {
         None
@@ -724,6 +735,27 @@ where
     Ok((upsert_batch, delete_batch))
 }
 
+/// Rows of `batch` whose key occurs again further down.
+fn superseded_rows<FS, E>(
+    db: &DbInner<FS, E>,
+    batch: &RecordBatch,
+) -> Result<HashSet<usize>, KeyExtractError>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    let rows: Vec<usize> = (0..batch.num_rows()).collect();
+    let keys = db.extractor().project_view(batch, &rows)?;
+    let mut seen = HashSet::new();
+    Ok(keys
+        .iter()
+        .enumerate()
+        .rev()
+        .filter_map(|(idx, key)| (!seen.insert(key.to_owned())).then_some(idx))
+        .collect())
+}
+
 fn build_delete_batch<FS, E>(
     db: &DbInner<FS, E>,
     batch: &RecordBatch,
-- 
2.43.0


From ea5b4e0e81d6ec3924a92d5269ed5a1ea0e9f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 15/21] fix: do not report an ingest as failed when only the
 flush it triggered failed

By then the batch is durable and visible. A caller told otherwise retries a
write that took effect; the trigger is documented as best effort.
---
 src/db/mod.rs | 16 +++++++++++-----
 src/db/wal.rs | 11 +----------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index f9ff19c..2a38ab5 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -800,11 +800,7 @@ where
         }
         self.insert_into_mutable(batch, commit_ts)?;
         self.maybe_seal_after_insert()?;
-        self.maybe_run_minor_compaction().await.map_err(|err| {
-            KeyExtractError::Arrow(ArrowError::ComputeError(format!(
-                "minor compaction failed: {err}"
-            )))
-        })?;
+        self.run_minor_compaction_after_ingest().await;
         Ok(())
     }
 
@@ -1092,6 +1088,16 @@ where
         }
     }
 
+    /// Run the minor compaction trigger of an ingest whose batch is already durable and visible.
+    ///
+    /// A failed flush must not be reported as a failed write: the sealed segments stay readable and
+    /// are flushed by a later trigger.
+    pub(crate) async fn run_minor_compaction_after_ingest(&self) {
+        if let Err(err) = self.maybe_run_minor_compaction().await {
+            eprintln!("minor compaction after ingest failed: {err}");
+        }
+    }
+
     /// Plan and flush immutable segments into a Parquet-backed SSTable.
     pub(crate) async fn flush_immutables_with_descriptor(
         &self,
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 9e53543..9819acc 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -18,7 +18,6 @@ use crate::{
     key::KeyOwned,
     manifest::{ManifestFs, TableId, TonboManifest},
     mvcc::Timestamp,
-    ondisk::sstable::SsTableError,
     wal::{
         WalConfig as RuntimeWalConfig, WalError, WalHandle,
         frame::{DynAppendEvent, WalEvent},
@@ -511,19 +510,11 @@ where
             db.add_immutable(sealed, wal_range_take);
         }
         db.maybe_seal_after_insert()?;
-        db.maybe_run_minor_compaction()
-            .await
-            .map_err(compaction_as_key_extract_error)?;
+        db.run_minor_compaction_after_ingest().await;
     }
     Ok(())
 }
 
-fn compaction_as_key_extract_error(err: SsTableError) -> KeyExtractError {
-    KeyExtractError::Arrow(ArrowError::ComputeError(format!(
-        "minor compaction failed: {err}"
-    )))
-}
-
 pub(crate) fn apply_dyn_wal_batch<FS, E>(
     db: &DbInner<FS, E>,
     batch: RecordBatch,
-- 
2.43.0


From 149c4f6a8c2e2682f584b960a17706cef89c4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 16/21] fix: keep the log of rows written by the batch that
 sealed the write buffer

---
 src/db/mod.rs          | 29 ++++++++++++++++++++---------
 src/db/wal.rs          |  8 ++++++++
 src/transaction/mod.rs | 12 ++++++------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 2a38ab5..6e149ca 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -741,21 +741,27 @@ where
             .scan_with_floor(wal_floor.as_ref())
             .await
             .map_err(KeyExtractError::from)?;
-        if events.is_empty() {
-            db.set_mutable_wal_range(None);
+        let replayed_range = if events.is_empty() {
+            None
         } else if let Some(ref floor_ref) = wal_floor {
-            db.set_mutable_wal_range(Some(WalFrameRange {
+            Some(WalFrameRange {
                 first: floor_ref.first_frame(),
                 last: floor_ref.last_frame(),
-            }));
+            })
         } else {
-            db.set_mutable_wal_range(Some(WalFrameRange {
+            Some(WalFrameRange {
                 first: INITIAL_FRAME_SEQ,
                 last: INITIAL_FRAME_SEQ,
-            }));
-        }
+            })
+        };
+        db.set_mutable_wal_range(replayed_range);
 
         let last_commit_ts = db.replay_wal_events(events)?;
+        // Replay may have filled and sealed the memtable, which hands the range to the sealed
+        // segment; the rows replayed since still live in the log only.
+        if let Some(range) = replayed_range {
+            db.observe_mutable_wal_span(range.first, range.last);
+        }
         let effective_commit = last_commit_ts.or(state_commit_hint);
         if let Some(ts) = effective_commit {
             db.commit_clock.advance_to_at_least(ts.saturating_add(1));
@@ -795,10 +801,15 @@ where
         // Record WAL spans BEFORE insert that may trigger auto-seal.
         // If we record after, a sealed segment would miss the current batch's frames,
         // causing WAL GC to prematurely delete frames needed for recovery.
-        for (first, last) in wal_spans {
-            self.observe_mutable_wal_span(first, last);
+        for (first, last) in &wal_spans {
+            self.observe_mutable_wal_span(*first, *last);
         }
         self.insert_into_mutable(batch, commit_ts)?;
+        // An auto-seal hands the recorded spans to the sealed segment, but this batch went into the
+        // memtable that replaced it.
+        for (first, last) in &wal_spans {
+            self.observe_mutable_wal_span(*first, *last);
+        }
         self.maybe_seal_after_insert()?;
         self.run_minor_compaction_after_ingest().await;
         Ok(())
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 9819acc..1656f68 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -497,17 +497,25 @@ where
         if let Some(range) = wal_range {
             db.record_mutable_wal_range(range);
         }
+        // An auto-seal hands the recorded range to the sealed segment, but this batch went into the
+        // memtable that replaced it, so the range is recorded again.
         if let Some(batch) = upsert_batch
             && let Some(sealed) = db.mem.insert_batch(batch, commit_ts)?
         {
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
+            if let Some(range) = wal_range {
+                db.record_mutable_wal_range(range);
+            }
         }
         if let Some(batch) = delete_batch
             && let Some(sealed) = db.mem.insert_delete_batch(batch)?
         {
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
+            if let Some(range) = wal_range {
+                db.record_mutable_wal_range(range);
+            }
         }
         db.maybe_seal_after_insert()?;
         db.run_minor_compaction_after_ingest().await;
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 8da4d16..aa34b1d 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -630,12 +630,12 @@ where
                     // Record WAL range BEFORE apply that may trigger auto-seal.
                     // If we record after, a sealed segment would miss this transaction's frames.
                     publish_ctx.record_wal_range(&wal_range);
-                    apply_staged_payloads(
-                        &*db,
-                        upsert_payload.take(),
-                        delete_payload.take(),
-                        commit_ts,
-                    )?;
+                    apply_staged_payloads(&*db, upsert_payload.take(), None, commit_ts)?;
+                    // Record it again after each apply: an auto-seal hands the range to the sealed
+                    // segment, but the rows just applied are in the memtable that replaced it.
+                    publish_ctx.record_wal_range(&wal_range);
+                    apply_staged_payloads(&*db, None, delete_payload.take(), commit_ts)?;
+                    publish_ctx.record_wal_range(&wal_range);
                     // The commit is durable and visible by now, so a failure to record its WAL
                     // segments must not be reported as a failure to commit.
                     if let Err(err) = publish_ctx.finalize_manifest(wal_range).await {
-- 
2.43.0


From 6cba4b1a81fa273b78ab9f9f452684b522b523e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 17/21] fix: keep log frames of writes that are not recorded
 yet when the log floor rises

---
 src/db/mod.rs          |  13 ++++-
 src/db/wal.rs          | 130 ++++++++++++++++++++++++++++++++---------
 src/transaction/mod.rs |   7 ++-
 3 files changed, 118 insertions(+), 32 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6e149ca..77400d1 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -42,7 +42,8 @@ pub use builder::{
 };
 pub use error::DBError;
 pub use scan::{DEFAULT_SCAN_BATCH_ROWS, ScanBuilder, ScanSetupProfile};
-pub(crate) use wal::{TxnWalPublishContext, WalFrameRange};
+use wal::WalInFlight;
+pub(crate) use wal::{TxnWalPublishContext, WalFrameRange, WalWriteGuard};
 
 pub use crate::{
     compaction::planner::{CompactionStrategy, LeveledPlannerConfig},
@@ -492,6 +493,8 @@ where
     metadata_cache: Arc<E::Mutex<ParquetMetadataCache>>,
     /// WAL frame bounds covering the current mutable memtable, if any.
     mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    /// Writes whose WAL frames are not covered by a recorded range yet.
+    wal_in_flight: Arc<Mutex<WalInFlight>>,
     /// Per-key transactional locks (wired once transactional writes arrive).
     _key_locks: LockMap<KeyOwned>,
     /// Optional background compaction worker handle.
@@ -553,6 +556,8 @@ where
     metadata_cache: Arc<E::Mutex<ParquetMetadataCache>>,
     /// WAL frame bounds covering the current mutable memtable, if any.
     mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    /// Writes whose WAL frames are not covered by a recorded range yet.
+    wal_in_flight: Arc<Mutex<WalInFlight>>,
     /// Per-key transactional locks (wired once transactional writes arrive).
     _key_locks: LockMap<KeyOwned>,
     /// Optional background compaction worker handle.
@@ -668,6 +673,7 @@ where
             pruner_cache: Arc::new(E::mutex(HashMap::new())),
             metadata_cache: default_parquet_metadata_cache::<E>(),
             mutable_wal_range: Arc::new(Mutex::new(None)),
+            wal_in_flight: Arc::default(),
             _key_locks: Arc::new(LockableHashMap::new()),
             compaction_worker: None,
             compaction_metrics: None,
@@ -782,6 +788,7 @@ where
         self.apply_l0_backpressure().await?;
 
         let commit_ts = self.next_commit_ts();
+        let wal_write = self.begin_wal_write();
         let mut wal_spans: Vec<(u64, u64)> = Vec::new();
         if let Some(handle) = self.wal_handle().cloned() {
             let provisional_id = handle.next_provisional_id();
@@ -795,6 +802,7 @@ where
                 .map_err(KeyExtractError::from)?;
             for ticket in [append_ticket, commit_ticket] {
                 let ack = ticket.durable().await.map_err(KeyExtractError::from)?;
+                wal_write.acknowledged(ack.last_seq);
                 wal_spans.push((ack.first_seq, ack.last_seq));
             }
         }
@@ -810,6 +818,7 @@ where
         for (first, last) in &wal_spans {
             self.observe_mutable_wal_span(*first, *last);
         }
+        drop(wal_write);
         self.maybe_seal_after_insert()?;
         self.run_minor_compaction_after_ingest().await;
         Ok(())
@@ -1131,7 +1140,7 @@ where
             builder.add_immutable(seg)?;
         }
         let existing_floor = self.manifest_wal_floor().await;
-        let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+        let live_floor = self.wal_live_frame_floor_after_flush(flush_count);
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
             match manifest_ext::collect_wal_segment_refs(cfg, existing_floor.as_ref(), live_floor)
                 .await
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1656f68..f64df54 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     sync::{Arc, Mutex},
 };
 
@@ -82,6 +82,50 @@ where
     pub(crate) prev_live_floor: Option<u64>,
 }
 
+/// Writes whose frames may already be in the WAL but whose ranges are not recorded yet.
+#[derive(Default)]
+pub(crate) struct WalInFlight {
+    /// Highest frame sequence acknowledged so far; frames logged later have higher ones.
+    acknowledged: u64,
+    next_id: u64,
+    /// Lower bound of the frames of every write under way.
+    first_frames: BTreeMap<u64, u64>,
+}
+
+/// Keeps the frames of one write alive from before they are logged until their range is recorded.
+pub(crate) struct WalWriteGuard {
+    in_flight: Arc<Mutex<WalInFlight>>,
+    id: u64,
+}
+
+impl WalWriteGuard {
+    fn new(in_flight: Arc<Mutex<WalInFlight>>) -> Self {
+        let id = {
+            let mut state = in_flight.lock().expect("wal in-flight lock poisoned");
+            let id = state.next_id;
+            state.next_id += 1;
+            let first = state.acknowledged.saturating_add(1);
+            state.first_frames.insert(id, first);
+            id
+        };
+        Self { in_flight, id }
+    }
+
+    /// Note that every frame up to `last_seq` has been assigned and made durable.
+    pub(crate) fn acknowledged(&self, last_seq: u64) {
+        let mut state = self.in_flight.lock().expect("wal in-flight lock poisoned");
+        state.acknowledged = state.acknowledged.max(last_seq);
+    }
+}
+
+impl Drop for WalWriteGuard {
+    fn drop(&mut self) {
+        if let Ok(mut state) = self.in_flight.lock() {
+            state.first_frames.remove(&self.id);
+        }
+    }
+}
+
 #[derive(Default)]
 #[allow(clippy::arc_with_non_send_sync)]
 pub(crate) struct SealState {
@@ -135,8 +179,7 @@ where
         commit_ts: Timestamp,
     ) -> Result<(), KeyExtractError> {
         if let Some(sealed) = self.mem.insert_batch(batch, commit_ts)? {
-            let wal_range = self.take_mutable_wal_range();
-            self.add_immutable(sealed, wal_range);
+            self.add_sealed(sealed);
             let mut seal = self.seal_state_lock();
             seal.last_seal_at = Some(self.executor.now());
         }
@@ -145,8 +188,7 @@ where
 
     fn seal_mutable_now(&self) -> Result<(), KeyExtractError> {
         if let Some(seg) = self.mem.seal_now()? {
-            let wal_range = self.take_mutable_wal_range();
-            self.add_immutable(seg, wal_range);
+            self.add_sealed(seg);
             let mut seal = self.seal_state_lock();
             seal.last_seal_at = Some(self.executor.now());
         }
@@ -174,8 +216,7 @@ where
         batch: RecordBatch,
     ) -> Result<(), KeyExtractError> {
         if let Some(sealed) = self.mem.insert_delete_batch(batch)? {
-            let wal_range = self.take_mutable_wal_range();
-            self.add_immutable(sealed, wal_range);
+            self.add_sealed(sealed);
             let mut seal = self.seal_state_lock();
             seal.last_seal_at = Some(self.executor.now());
         }
@@ -346,21 +387,41 @@ where
         Ok(())
     }
 
-    pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
-        let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+    /// Register a write that is about to append to the WAL.
+    pub(crate) fn begin_wal_write(&self) -> WalWriteGuard {
+        WalWriteGuard::new(Arc::clone(&self.wal_in_flight))
+    }
+
+    /// Lowest WAL frame that is still needed once the oldest `flushed` sealed segments are on disk:
+    /// frames behind newer segments, behind the mutable memtable, and of writes under way.
+    pub(crate) fn wal_live_frame_floor_after_flush(&self, flushed: usize) -> Option<u64> {
+        // Writes record their range before they leave the in-flight set, so look there first.
+        let in_flight_floor = self
+            .wal_in_flight
+            .lock()
+            .expect("wal in-flight lock poisoned")
+            .first_frames
+            .values()
+            .min()
+            .copied();
         let seal = self.seal_state_lock();
+        let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let immutable_floor = seal
             .immutable_wal_ranges
             .iter()
+            .skip(flushed)
             .filter_map(|range| range.as_ref().map(|r| r.first))
             .min();
 
-        match (mutable_floor, immutable_floor) {
-            (Some(lhs), Some(rhs)) => Some(lhs.min(rhs)),
-            (Some(lhs), None) => Some(lhs),
-            (None, Some(rhs)) => Some(rhs),
-            (None, None) => None,
-        }
+        [in_flight_floor, mutable_floor, immutable_floor]
+            .into_iter()
+            .flatten()
+            .min()
+    }
+
+    /// Lowest WAL frame whose rows are not on disk yet.
+    pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
+        self.wal_live_frame_floor_after_flush(0)
     }
 
     pub(crate) fn txn_publish_context(
@@ -388,6 +449,18 @@ where
         self.record_mutable_wal_range(WalFrameRange { first, last });
     }
 
+    /// Add the memtable that was just sealed, together with the WAL range recorded so far.
+    ///
+    /// The range moves under the seal lock, so `wal_live_frame_floor` never misses it.
+    #[allow(clippy::arc_with_non_send_sync)]
+    fn add_sealed(&self, seg: ImmutableSegment) {
+        let mut seal = self.seal_state_lock();
+        let wal_range = self.take_mutable_wal_range();
+        seal.immutables.push(Arc::new(seg));
+        seal.immutable_wal_ranges.push(wal_range);
+    }
+
+    #[cfg(test)]
     #[allow(clippy::arc_with_non_send_sync)]
     pub(crate) fn add_immutable(&self, seg: ImmutableSegment, wal_range: Option<WalFrameRange>) {
         let mut seal = self.seal_state_lock();
@@ -455,6 +528,7 @@ where
     }
 
     let mut wal_range: Option<WalFrameRange> = None;
+    let wal_write = db.begin_wal_write();
     if let Some(handle) = db.wal_handle().cloned() {
         let provisional_id = handle.next_provisional_id();
         let mut append_tickets = Vec::new();
@@ -486,6 +560,7 @@ where
             .await
             .map_err(KeyExtractError::from)?;
         tracker.observe_range(commit_ack.first_seq, commit_ack.last_seq);
+        wal_write.acknowledged(commit_ack.last_seq);
         wal_range = tracker.into_range();
     }
 
@@ -502,21 +577,20 @@ where
         if let Some(batch) = upsert_batch
             && let Some(sealed) = db.mem.insert_batch(batch, commit_ts)?
         {
-            let wal_range_take = db.take_mutable_wal_range();
-            db.add_immutable(sealed, wal_range_take);
-            if let Some(range) = wal_range {
-                db.record_mutable_wal_range(range);
-            }
+            db.add_sealed(sealed);
+        }
+        if let Some(range) = wal_range {
+            db.record_mutable_wal_range(range);
         }
         if let Some(batch) = delete_batch
             && let Some(sealed) = db.mem.insert_delete_batch(batch)?
         {
-            let wal_range_take = db.take_mutable_wal_range();
-            db.add_immutable(sealed, wal_range_take);
-            if let Some(range) = wal_range {
-                db.record_mutable_wal_range(range);
-            }
+            db.add_sealed(sealed);
+        }
+        if let Some(range) = wal_range {
+            db.record_mutable_wal_range(range);
         }
+        drop(wal_write);
         db.maybe_seal_after_insert()?;
         db.run_minor_compaction_after_ingest().await;
     }
@@ -570,8 +644,7 @@ where
     }
 
     if let Some(sealed) = db.mem.insert_batch_with_mvcc(batch, commit_array)? {
-        let wal_range = db.take_mutable_wal_range();
-        db.add_immutable(sealed, wal_range);
+        db.add_sealed(sealed);
     }
     Ok(())
 }
@@ -589,8 +662,7 @@ where
     validate_delete_batch_schema(db, &batch)?;
     validate_delete_commit_ts(&batch, commit_ts)?;
     if let Some(sealed) = db.mem.insert_delete_batch(batch)? {
-        let wal_range = db.take_mutable_wal_range();
-        db.add_immutable(sealed, wal_range);
+        db.add_sealed(sealed);
     }
     Ok(())
 }
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index aa34b1d..8e2ff24 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -616,6 +616,7 @@ where
 
         if let Some(wal) = db.wal_handle().cloned() {
             let provisional_id = wal.next_provisional_id();
+            let wal_write = db.begin_wal_write();
             let prev_live_floor = db.wal_live_frame_floor();
             let upsert_refs = upsert_payload.as_ref();
             let delete_ref = delete_payload.as_ref();
@@ -627,6 +628,7 @@ where
                 CommitAckMode::Strict => {
                     let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let wal_range = tickets.await_range().await?;
+                    wal_write.acknowledged(wal_range.last);
                     // Record WAL range BEFORE apply that may trigger auto-seal.
                     // If we record after, a sealed segment would miss this transaction's frames.
                     publish_ctx.record_wal_range(&wal_range);
@@ -636,6 +638,7 @@ where
                     publish_ctx.record_wal_range(&wal_range);
                     apply_staged_payloads(&*db, None, delete_payload.take(), commit_ts)?;
                     publish_ctx.record_wal_range(&wal_range);
+                    drop(wal_write);
                     // The commit is durable and visible by now, so a failure to record its WAL
                     // segments must not be reported as a failure to commit.
                     if let Err(err) = publish_ctx.finalize_manifest(wal_range).await {
@@ -655,7 +658,7 @@ where
                     )?;
                     let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let executor = Arc::clone(db.executor());
-                    spawn_publish_task(executor, publish_ctx, tickets);
+                    spawn_publish_task(executor, publish_ctx, tickets, wal_write);
                 }
             }
         } else {
@@ -1284,6 +1287,7 @@ fn spawn_publish_task<FS, E>(
     executor: Arc<E>,
     publish_ctx: TxnWalPublishContext<FS, E>,
     tickets: WalTxnTickets<E>,
+    wal_write: crate::db::WalWriteGuard,
 ) where
     FS: crate::manifest::ManifestFs<E>,
     E: Executor + Timer + Clone + 'static,
@@ -1292,6 +1296,7 @@ fn spawn_publish_task<FS, E>(
     executor.spawn(async move {
         match tickets.await_range().await {
             Ok(range) => {
+                wal_write.acknowledged(range.last);
                 if let Err(err) = publish_ctx.finalize(range).await {
                     eprintln!("transaction post-commit publish failed: {err}");
                 }
-- 
2.43.0


From dbdc708ceb78338b2f5a34954db7433bc156682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 18/21] fix: resume the commit clock past commits that only
 SSTs hold

---
 src/db/builder.rs |  9 +++++++++
 src/db/mod.rs     | 21 ++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 69fb58d..0f9be17 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -1150,6 +1150,11 @@ where
             inner.compaction_metrics = options.metrics();
         }
 
+        inner
+            .advance_clock_past_ssts()
+            .await
+            .map_err(DbBuildError::Manifest)?;
+
         if let Some(cfg) = wal_cfg.take() {
             inner.enable_wal(cfg).await?;
         }
@@ -1747,6 +1752,10 @@ where
                 inner.cas_backoff = options.cas_backoff_config().clone();
                 inner.compaction_metrics = options.metrics();
             }
+            inner
+                .advance_clock_past_ssts()
+                .await
+                .map_err(DbBuildError::Manifest)?;
             inner.enable_wal(wal_cfg).await?;
             if let (Some(options), Some((sst_config, id_allocator))) =
                 (compaction_options, compaction_state)
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 77400d1..ebefc49 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -768,7 +768,7 @@ where
         if let Some(range) = replayed_range {
             db.observe_mutable_wal_span(range.first, range.last);
         }
-        let effective_commit = last_commit_ts.or(state_commit_hint);
+        let effective_commit = last_commit_ts.max(state_commit_hint);
         if let Some(ts) = effective_commit {
             db.commit_clock.advance_to_at_least(ts.saturating_add(1));
         }
@@ -1231,6 +1231,25 @@ where
         }
     }
 
+    /// Move the commit clock past every commit stored in SSTs. The WAL alone does not tell: it may
+    /// be disabled, pruned, or have lost its tail since those commits were flushed.
+    pub(crate) async fn advance_clock_past_ssts(&self) -> crate::manifest::ManifestResult<()> {
+        let snapshot = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let max_stored = snapshot
+            .latest_version
+            .iter()
+            .flat_map(|version| version.ssts().iter().flatten())
+            .filter_map(|entry| entry.stats().and_then(|stats| stats.max_commit_ts))
+            .max();
+        if let Some(ts) = max_stored {
+            self.commit_clock.advance_to_at_least(ts.saturating_add(1));
+        }
+        Ok(())
+    }
+
     async fn manifest_wal_floor(&self) -> Option<WalSegmentRef> {
         self.manifest
             .wal_floor(self.manifest_table)
-- 
2.43.0


From 9dea8b5b81d65db74edc7e1917aea8f6038aac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 19/21] fix: refuse log frames whose sequence goes backwards
 instead of skipping them

---
 src/wal/replay.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wal/replay.rs b/src/wal/replay.rs
index 7592e8b..eb319a0 100644
--- a/src/wal/replay.rs
+++ b/src/wal/replay.rs
@@ -127,6 +127,7 @@ impl Replayer {
             })?;
 
             let mut offset: usize = 0;
+            let mut last_seq: Option<u64> = None;
             while offset < data.len() {
                 let slice = &data[offset..];
                 let header = match FrameHeader::decode_from(slice) {
@@ -150,6 +151,12 @@ impl Replayer {
                     }
                     Err(err) => return Err(err),
                 };
+                // The checksum does not cover the header. A damaged sequence must not move the frame
+                // below the floor, which would skip it silently.
+                if last_seq.is_some_and(|seq| header.seq <= seq) {
+                    return Err(WalError::Corrupt("frame sequence out of order"));
+                }
+                last_seq = Some(header.seq);
                 let payload_start = offset + FRAME_HEADER_SIZE;
                 let payload_end = payload_start + header.len as usize;
                 if payload_end > data.len() {
-- 
2.43.0


From ee50365d484e33b6c3551f9c904ab10c82711164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:30 +0000
Subject: [PATCH 20/21] fix: refuse batches with unusable keys before they
 reach the log

A batch whose key column holds a null was logged first and refused afterwards,
so every later open failed while replaying it.
---
 src/db/mod.rs |  1 +
 src/db/wal.rs | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index ebefc49..7e45fad 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -784,6 +784,7 @@ where
                 actual: batch.schema(),
             });
         }
+        wal::validate_batch_keys(self, &batch)?;
 
         self.apply_l0_backpressure().await?;
 
diff --git a/src/db/wal.rs b/src/db/wal.rs
index f64df54..ecfb4d3 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -513,6 +513,7 @@ where
 {
     validate_record_batch_schema(db, &batch)?;
     validate_vec_tombstone_bitmap(&batch, &tombstones)?;
+    validate_batch_keys(db, &batch)?;
 
     if batch.num_rows() == 0 {
         return Ok(());
@@ -698,6 +699,21 @@ fn validate_vec_tombstone_bitmap(
     Ok(())
 }
 
+/// Refuse a batch whose keys cannot be extracted before any of it reaches the log: recovery would
+/// fail on the logged rows.
+pub(super) fn validate_batch_keys<FS, E>(
+    db: &DbInner<FS, E>,
+    batch: &RecordBatch,
+) -> Result<(), KeyExtractError>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    let rows: Vec<usize> = (0..batch.num_rows()).collect();
+    db.extractor().project_view(batch, &rows).map(drop)
+}
+
 fn validate_delete_batch_schema<FS, E>(
     db: &DbInner<FS, E>,
     batch: &RecordBatch,
-- 
2.43.0


From f5a296d3c938c081682f7c327543a5df387e2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 21/21] fix: refuse a log whose frames are not numbered without
 gaps

Frames are numbered consecutively across segments. A segment that was lost, or
cut exactly between two frames, left a gap that replay did not notice, so later
writes were recovered without the earlier ones.
---
 src/wal/replay.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/wal/replay.rs b/src/wal/replay.rs
index eb319a0..82bf69c 100644
--- a/src/wal/replay.rs
+++ b/src/wal/replay.rs
@@ -91,6 +91,13 @@ impl Replayer {
             floor_first_frame = ?floor_first_frame,
         );
 
+        // Frames are numbered without gaps across segments, and the checksum does not cover the
+        // header: a frame that is not the next one means that frames are missing or damaged, and
+        // what follows must not be applied without them. Retention may drop the oldest segments.
+        let mut next_frame = match self.cfg.retention_bytes {
+            None => floor_first_frame,
+            Some(_) => None,
+        };
         let mut events = Vec::new();
         for segment in segments {
             if let Some(seq) = floor_seq
@@ -127,7 +134,6 @@ impl Replayer {
             })?;
 
             let mut offset: usize = 0;
-            let mut last_seq: Option<u64> = None;
             while offset < data.len() {
                 let slice = &data[offset..];
                 let header = match FrameHeader::decode_from(slice) {
@@ -151,12 +157,10 @@ impl Replayer {
                     }
                     Err(err) => return Err(err),
                 };
-                // The checksum does not cover the header. A damaged sequence must not move the frame
-                // below the floor, which would skip it silently.
-                if last_seq.is_some_and(|seq| header.seq <= seq) {
+                if next_frame.is_some_and(|seq| header.seq != seq) {
                     return Err(WalError::Corrupt("frame sequence out of order"));
                 }
-                last_seq = Some(header.seq);
+                next_frame = Some(header.seq.saturating_add(1));
                 let payload_start = offset + FRAME_HEADER_SIZE;
                 let payload_end = payload_start + header.len as usize;
                 if payload_end > data.len() {
-- 
2.43.0

