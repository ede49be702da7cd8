//! One database instance under the simulator, driven step by step.

use std::{collections::BTreeMap, sync::Arc, time::Duration};

use fusio::{fs::FileSystemTag, path::Path};
use tonbo::db::{
    CommitAckMode, CompactionStrategy, DB, DbBuilder, LeveledPlannerConfig, NeverSeal, SealPolicy,
    Transaction,
    WalConfig,
    verif::{self, MemStats, SealDecision, SealReason, Snapshot, TransactionCommitError, WalSyncPolicy},
    wal_tuning::WalConfigExt,
};

use crate::{
    profile::Profile,
    simexec::{SimExec, Stuck},
    simfs::SimFs,
};

/// Seals when the write buffer holds this many batches.
struct SealAt(usize);
impl SealPolicy for SealAt {
    fn evaluate(&self, s: &MemStats) -> SealDecision {
        match s.dyn_batches {
            Some(n) if n >= self.0 => SealDecision::Seal(SealReason::Manual),
            _ => SealDecision::NoOp,
        }
    }
}

pub type Db = DB<SimFs, SimExec>;
pub type Rows = Vec<(usize, i64)>;

#[derive(Clone)]
pub struct Cfg {
    pub tag: FileSystemTag,
    pub seg_bytes: usize,
    pub sync: WalSyncPolicy,
    pub ack: CommitAckMode,
    pub seed: u64,
    pub random_sched: bool,
    pub root: String,
    pub table: Option<String>,
    pub wal: bool,
    /// automatic maintenance threshold for sealed memtables (usize::MAX: manual only)
    pub minor: usize,
    pub flush_ms: Option<u64>,
    pub retention: Option<usize>,
    pub queue: Option<usize>,
    pub seg_age_ms: Option<u64>,
    pub state_store: bool,
    /// the engine seals and flushes on its own, on thresholds drawn from this seed
    pub auto: Option<u64>,
    /// virtual time at which this process starts
    pub start: Duration,
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            tag: FileSystemTag::Memory,
            seg_bytes: 1 << 20,
            sync: WalSyncPolicy::Always,
            ack: CommitAckMode::Strict,
            seed: 1,
            random_sched: false,
            root: "t".into(),
            table: None,
            wal: true,
            minor: usize::MAX,
            flush_ms: None,
            retention: None,
            queue: None,
            seg_age_ms: None,
            state_store: true,
            auto: None,
            start: Duration::ZERO,
        }
    }
}

/// Longer than a manifest lease lives.
pub const LEASE: Duration = Duration::from_secs(70);

pub struct Inst {
    pub fs: SimFs,
    pub exec: SimExec,
    pub profile: Profile,
    pub cfg: Cfg,
    pub db: Option<Db>,
    pub snaps: BTreeMap<u64, Snapshot>,
    pub txns: BTreeMap<u64, Transaction<SimFs, SimExec>>,
    /// structural no-ops are acceptable (after a crash inside a maintenance step)
    pub loose: bool,
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// The engine returned an error where the specification has none.
    Error(String),
    /// The engine stopped making progress.
    Stuck(String),
    /// The engine panicked.
    Panic(String),
    /// An observation differs from the specification.
    Mismatch(String),
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Error(s) => write!(f, "error: {s}"),
            Fail::Stuck(s) => write!(f, "no progress: {s}"),
            Fail::Panic(s) => write!(f, "panic: {s}"),
            Fail::Mismatch(s) => write!(f, "{s}"),
        }
    }
}

impl Fail {
    pub fn context(self, c: &str) -> Fail {
        match self {
            Fail::Error(s) => Fail::Error(format!("{c}: {s}")),
            Fail::Stuck(s) => Fail::Stuck(format!("{c}: {s}")),
            Fail::Panic(s) => Fail::Panic(format!("{c}: {s}")),
            Fail::Mismatch(s) => Fail::Mismatch(format!("{c}: {s}")),
        }
    }
}

pub type Res<T> = Result<T, Fail>;

pub fn err<E: std::fmt::Display>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail::Error(format!("{what}: {e}"))
}

impl Inst {
    pub fn new(profile: Profile, cfg: Cfg) -> Self {
        let fs = SimFs::new(cfg.tag);
        Self::with_fs(profile, cfg, fs)
    }

    pub fn with_fs(profile: Profile, cfg: Cfg, fs: SimFs) -> Self {
        let exec = SimExec::new(cfg.seed, cfg.random_sched, cfg.start);
        Self { fs, exec, profile, cfg, db: None, snaps: BTreeMap::new(), txns: BTreeMap::new(), loose: false }
    }

    pub fn run<F: Future>(&self, what: &str, fut: F) -> Res<F::Output> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec.block_on(fut))) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(Stuck::Deadlock)) => Err(Fail::Stuck(format!("{what}: deadlock"))),
            Ok(Err(Stuck::Livelock)) => Err(Fail::Stuck(format!("{what}: livelock"))),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(Fail::Panic(format!("{what}: {msg}")))
            }
        }
    }

    pub fn wal_config(cfg: &Cfg) -> WalConfig {
        let mut w = WalConfig::default()
            .segment_max_bytes(cfg.seg_bytes)
            .sync_policy(cfg.sync.clone())
            .retention_bytes(cfg.retention);
        if let Some(ms) = cfg.flush_ms {
            w = w.flush_interval(Duration::from_millis(ms));
        }
        if let Some(q) = cfg.queue {
            w = w.queue_size(q);
        }
        if let Some(ms) = cfg.seg_age_ms {
            w = w.segment_max_age(Some(Duration::from_millis(ms)));
        }
        if !cfg.state_store {
            w = w.state_store(None);
        }
        w
    }

    pub fn open(&mut self) -> Res<()> {
        let mut cfg = self.cfg.clone();
        let mut policy: Arc<dyn SealPolicy + Send + Sync> = Arc::new(NeverSeal);
        verif::set_batch_capacity(1024);
        if let Some(a) = cfg.auto {
            // some of: a small buffer, a seal policy, automatic flushes
            verif::set_batch_capacity(if a & 1 == 0 { 1024 } else { 2 + (a >> 8) as usize % 4 });
            if a & 2 != 0 {
                policy = Arc::new(SealAt(1 + (a >> 16) as usize % 4));
            }
            if a & 12 != 0 {
                cfg.minor = 1 + (a >> 24) as usize % 3;
            }
        }
        let b = DbBuilder::from_schema_key_indices(
            self.profile.schema.clone(),
            self.profile.key_cols.clone(),
        )
        .map_err(err("builder"))?;
        let mut b = b
            .object_store_with_fs(Arc::new(self.fs.clone()), Path::from(cfg.root.as_str()))
            .map_err(err("builder"))?
            .with_minor_compaction(cfg.minor, 0)
            .with_commit_ack_mode(cfg.ack)
            .wal_config(Self::wal_config(&cfg));
        if let Some(t) = &cfg.table {
            b = b.table_name(t.clone());
        }
        let exec = Arc::new(self.exec.clone());
        let mut db = self.run("open", b.open_with_executor(exec))?.map_err(err("open"))?;
        verif::set_seal_policy(&mut db, policy).map_err(err("seal policy"))?;
        self.db = Some(db);
        Ok(())
    }

    pub fn db(&self) -> &Db {
        self.db.as_ref().expect("open database")
    }

    /// Clean shutdown: drop every handle and let background tasks drain.
    pub fn close(&mut self) {
        self.snaps.clear();
        self.txns.clear();
        self.db = None;
        self.exec.run_ready();
        self.exec.run_for(Duration::from_secs(2));
    }

    /// Crash: nothing of the old process runs any more; storage stays as it is.
    pub fn crash(&mut self) {
        self.crash_with(false)
    }

    pub fn crash_with(&mut self, leak: bool) {
        let img = self.fs.image();
        self.fs.freeze();
        self.exec.kill(leak);
        self.snaps.clear();
        self.txns.clear();
        self.db = None;
        self.cfg.start = self.exec.vnow() + Duration::from_secs(1);
        self.exec = SimExec::new(self.cfg.seed ^ 0xABCD, self.cfg.random_sched, self.cfg.start);
        self.fs = SimFs::from_image(self.cfg.tag, &img);
    }

    pub fn ingest(&self, rows: &[(usize, i64)], plain: bool) -> Res<()> {
        let dels: Vec<bool> = rows
            .iter()
            .flat_map(|(_, v)| std::iter::repeat_n(*v == 0, self.profile.fan))
            .collect();
        let batch = self.profile.batch(
            &rows.iter().map(|(k, v)| (*k, if *v == 0 { 7_777_777 } else { *v })).collect::<Vec<_>>(),
        );
        let db = self.db();
        if plain && !dels.iter().any(|d| *d) {
            self.run("ingest", db.ingest(batch))?.map_err(err("ingest"))
        } else {
            self.run("ingest", db.ingest_with_tombstones(batch, dels))?.map_err(err("ingest"))
        }
    }

    pub fn scan(&self) -> Res<Rows> {
        let b = self.run("scan", self.db().scan().collect())?.map_err(err("scan"))?;
        self.profile.decode(&b).map_err(Fail::Mismatch)
    }

    pub fn snap_scan(&self, id: u64) -> Res<Rows> {
        let s = &self.snaps[&id];
        let b =
            self.run("snapshot scan", s.scan(self.db()).collect())?.map_err(err("snapshot scan"))?;
        self.profile.decode(&b).map_err(Fail::Mismatch)
    }

    pub fn txn_scan(&self, id: u64) -> Res<Rows> {
        let t = &self.txns[&id];
        let b = self
            .run("transaction scan", t.scan().collect())?
            .map_err(err("transaction scan"))?;
        self.profile.decode(&b).map_err(Fail::Mismatch)
    }

    pub fn txn_get(&self, id: u64, k: usize) -> Res<Option<i64>> {
        let t = &self.txns[&id];
        let key = self.profile.key_owned(k);
        let r = self.run("transaction get", t.get(&key))?.map_err(err("transaction get"))?;
        match r {
            None => Ok(None),
            Some(row) => self.profile.decode_dyn(k, &row).map(Some).map_err(Fail::Mismatch),
        }
    }

    pub fn snap(&mut self, id: u64) -> Res<()> {
        let s = self
            .run("begin snapshot", self.db().begin_snapshot())?
            .map_err(err("begin snapshot"))?;
        self.snaps.insert(id, s);
        Ok(())
    }

    pub fn begin(&mut self, id: u64) -> Res<()> {
        let t = self
            .run("begin transaction", self.db().begin_transaction())?
            .map_err(err("begin transaction"))?;
        self.txns.insert(id, t);
        Ok(())
    }

    pub fn put(&mut self, id: u64, k: usize, v: i64, how: u64) -> Res<()> {
        let row = self.profile.dyn_row(k, v);
        let batch = self.profile.batch(&[(k, v)]);
        let t = self.txns.get_mut(&id).unwrap();
        let r = match how % 3 {
            _ if self.profile.fan > 1 => t.upsert_batch(&batch),
            0 => t.upsert(row),
            1 => t.upsert_rows(vec![row]),
            _ => t.upsert_batch(&batch),
        };
        r.map_err(err("transaction upsert"))
    }

    pub fn del(&mut self, id: u64, k: usize) -> Res<()> {
        for key in self.profile.keys_owned(k) {
            self.txns.get_mut(&id).unwrap().delete(key).map_err(err("transaction delete"))?;
        }
        Ok(())
    }

    /// "ok" or "conflict".
    pub fn commit(&mut self, id: u64) -> Res<&'static str> {
        let t = self.txns.remove(&id).unwrap();
        match self.run("commit", t.commit())? {
            Ok(()) => Ok("ok"),
            Err(TransactionCommitError::WriteConflict(_)) => Ok("conflict"),
            Err(e) => Err(Fail::Error(format!("commit: {e}"))),
        }
    }

    pub fn abort(&mut self, id: u64) {
        if let Some(t) = self.txns.remove(&id) {
            t.abort();
        }
    }

    pub fn seal(&self) -> Res<usize> {
        verif::seal(self.db()).map_err(err("seal"))
    }

    /// A process that died while publishing a manifest version holds a lease; until it expires
    /// other writers are refused. That is the intended protection, so wait it out and try again.
    fn past_lease<T>(&self, f: impl Fn() -> Res<T>) -> Res<T> {
        match f() {
            Err(Fail::Error(e)) if self.loose && e.contains("precondition failed") => {
                self.exec.run_for(LEASE);
                f()
            }
            r => r,
        }
    }

    pub fn flush(&self) -> Res<bool> {
        self.past_lease(|| self.run("flush", verif::flush(self.db()))?.map_err(err("flush")))
    }

    pub fn compact(
        &self,
        planner: LeveledPlannerConfig,
        max_rows: Option<usize>,
        max_bytes: Option<usize>,
    ) -> Res<bool> {
        self.past_lease(|| {
            self.run(
                "compact",
                verif::compact_once(
                    self.db(),
                    CompactionStrategy::Leveled(planner.clone()),
                    max_rows,
                    max_bytes,
                ),
            )?
            .map_err(err("compact"))
        })
    }

    pub fn rotate(&self) -> Res<()> {
        self.run("rotate", verif::rotate_wal(self.db()))?.map_err(err("rotate"))
    }

    pub fn prune(&self) -> Res<()> {
        self.run("prune", verif::prune_wal(self.db()))
    }
}

impl Drop for Inst {
    fn drop(&mut self) {
        self.fs.freeze();
        self.snaps.clear();
        self.txns.clear();
        self.db = None;
        self.exec.kill(false);
    }
}
