//! Concurrent clients against one database; every operation's start, end and result is recorded,
//! and the history is judged by the specification (spec/Lin.tla).

use std::{
    sync::{
        Arc, Mutex,
        atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst},
    },
    time::Duration,
};

use fusio::executor::Timer;
use serde_json::{Value, json};
use tonbo::db::{
    CompactionStrategy, Transaction,
    verif::{self, Snapshot, TransactionCommitError},
};

use crate::{
    driver::{Cfg, Db, Fail, Inst, LEASE, Res, Rows},
    profile::{self, Profile},
    replay::{Rng, planner},
    runner::Case,
    simexec::SimExec,
    simfs::SimFs,
};

#[derive(Clone, Debug)]
enum Act {
    Ingest(Rows),
    Scan,
    Snap,
    SnapScan,
    Begin,
    Stage(Rows),
    TxnScan,
    Commit,
    Seal,
    Flush,
    Compact,
    Rotate,
    Prune,
}

struct Shared {
    ops: Mutex<Vec<Value>>,
    ev: Mutex<Vec<Value>>,
    fail: Mutex<Option<Fail>>,
    running: AtomicUsize,
    ingests: AtomicI64,
    commits: AtomicI64,
    begins: AtomicI64,
    scans: AtomicI64,
    maint_ok: AtomicUsize,
    maint_err: AtomicUsize,
    /// read timestamps are taken, and the two kinds of writers run, one kind at a time
    polite: bool,
    /// writes may seal, and nothing may seal during a scan (known finding K03)
    auto: bool,
    profile: Arc<Profile>,
}

impl Shared {
    /// Wait until none of the operations this one must not overlap is under way.
    async fn gate(&self, exec: &SimExec, read_ts: bool, scan: bool, ingest: bool, commit: bool) {
        let idle = |c: &AtomicI64| c.load(SeqCst) == 0;
        wait(exec, || {
            let mut ok = true;
            if self.polite {
                ok &= !read_ts || (idle(&self.ingests) && idle(&self.commits));
                ok &= !ingest || (idle(&self.begins) && idle(&self.commits));
                ok &= !commit || (idle(&self.begins) && idle(&self.ingests));
            }
            if self.auto {
                ok &= !scan || (idle(&self.ingests) && idle(&self.commits));
                ok &= !(ingest || commit) || idle(&self.scans);
            }
            ok
        })
        .await
    }
    fn start(&self, op: Value) -> usize {
        let mut ops = self.ops.lock().unwrap();
        ops.push(op);
        self.ev.lock().unwrap().push(json!([0, ops.len()]));
        ops.len() - 1
    }
    fn finish(&self, o: usize, key: &str, v: Value) {
        self.ops.lock().unwrap()[o][key] = v;
        self.ev.lock().unwrap().push(json!([1, o + 1]));
    }
    fn failed(&self, f: Fail) {
        self.fail.lock().unwrap().get_or_insert(f);
    }
}

struct Busy<'a>(&'a AtomicI64);
impl<'a> Busy<'a> {
    fn on(c: &'a AtomicI64) -> Self {
        c.fetch_add(1, SeqCst);
        Busy(c)
    }
}
impl Drop for Busy<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

async fn wait(exec: &SimExec, f: impl Fn() -> bool) {
    let mut n = 0;
    while !f() {
        n += 1;
        if n % 3 == 0 {
            // let virtual time pass: others may be waiting for a timer
            exec.sleep(Duration::from_micros(50)).await;
        } else {
            turn().await;
        }
    }
}

/// Let the other tasks have a go.
async fn turn() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if std::mem::replace(&mut done, true) {
            std::task::Poll::Ready(())
        } else {
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    })
    .await
}

fn rows_json(r: &Rows) -> Value {
    json!(r.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
}

async fn client(db: Db, exec: SimExec, sh: Arc<Shared>, acts: Vec<Act>, mut rng: Rng, tid: usize) {
    let p = sh.profile.clone();
    let mut snap: Option<Snapshot> = None;
    let mut txn: Option<Transaction<SimFs, SimExec>> = None;
    let mut staged: Rows = Vec::new();
    let mut next = tid * 100;
    let mut cur = 0;
    let mut snap_id = 0;
    let bad = |what: &str, e: String| sh.failed(Fail::Error(format!("{what}: {e}")));
    let maint = |ok: bool| {
        if ok { sh.maint_ok.fetch_add(1, SeqCst) } else { sh.maint_err.fetch_add(1, SeqCst) };
    };
    for act in acts {
        if sh.fail.lock().unwrap().is_some() {
            break;
        }
        for _ in 0..rng.below(2) * rng.below(40) {
            turn().await;
        }
        match act {
            Act::Ingest(rows) => {
                sh.gate(&exec, false, false, true, false).await;
                let _b = Busy::on(&sh.ingests);
                let o = sh.start(json!({"k": "write", "ws": rows_json(&rows), "t": 0}));
                let dels: Vec<bool> =
                    rows.iter().flat_map(|(_, v)| std::iter::repeat_n(*v == 0, p.fan)).collect();
                let batch = p.batch(
                    &rows.iter().map(|(k, v)| (*k, if *v == 0 { 7_777_777 } else { *v })).collect::<Vec<_>>(),
                );
                match db.ingest_with_tombstones(batch, dels).await {
                    Ok(()) => sh.finish(o, "res", json!("ok")),
                    Err(e) => bad("ingest", e.to_string()),
                }
            }
            Act::Scan => {
                sh.gate(&exec, true, true, false, false).await;
                let _b = Busy::on(&sh.begins);
                let _s = Busy::on(&sh.scans);
                let o = sh.start(json!({"k": "scan", "t": 0}));
                match db.scan().collect().await {
                    Ok(b) => match p.decode(&b) {
                        Ok(r) => sh.finish(o, "rows", rows_json(&r)),
                        Err(e) => sh.failed(Fail::Mismatch(e)),
                    },
                    Err(e) => bad("scan", e.to_string()),
                }
            }
            Act::Snap => {
                sh.gate(&exec, true, false, false, false).await;
                let _b = Busy::on(&sh.begins);
                next += 1;
                snap_id = next;
                let o = sh.start(json!({"k": "begin", "t": snap_id}));
                match db.begin_snapshot().await {
                    Ok(s) => {
                        snap = Some(s);
                        sh.finish(o, "res", json!("ok"));
                    }
                    Err(e) => bad("begin snapshot", e.to_string()),
                }
            }
            Act::SnapScan => {
                let Some(s) = &snap else { continue };
                sh.gate(&exec, false, true, false, false).await;
                let _s = Busy::on(&sh.scans);
                let o = sh.start(json!({"k": "read", "t": snap_id, "ws": []}));
                match s.scan(&db).collect().await {
                    Ok(b) => match p.decode(&b) {
                        Ok(r) => sh.finish(o, "rows", rows_json(&r)),
                        Err(e) => sh.failed(Fail::Mismatch(e)),
                    },
                    Err(e) => bad("snapshot scan", e.to_string()),
                }
            }
            Act::Begin => {
                sh.gate(&exec, true, false, false, false).await;
                let _b = Busy::on(&sh.begins);
                next += 1;
                cur = next;
                staged.clear();
                let o = sh.start(json!({"k": "begin", "t": cur}));
                match db.begin_transaction().await {
                    Ok(t) => {
                        txn = Some(t);
                        sh.finish(o, "res", json!("ok"));
                    }
                    Err(e) => bad("begin transaction", e.to_string()),
                }
            }
            Act::Stage(rows) => {
                let Some(t) = txn.as_mut() else { continue };
                for (k, v) in rows {
                    let r = if v == 0 {
                        p.keys_owned(k).into_iter().try_for_each(|key| t.delete(key))
                    } else {
                        t.upsert_batch(&p.batch(&[(k, v)]))
                    };
                    if let Err(e) = r {
                        bad("stage", e.to_string());
                    }
                    staged.retain(|(x, _)| *x != k);
                    staged.push((k, v));
                }
            }
            Act::TxnScan => {
                let Some(t) = txn.as_ref() else { continue };
                sh.gate(&exec, false, true, false, false).await;
                let _s = Busy::on(&sh.scans);
                let o = sh.start(json!({"k": "read", "t": cur, "ws": rows_json(&staged)}));
                match t.scan().collect().await {
                    Ok(b) => match p.decode(&b) {
                        Ok(r) => sh.finish(o, "rows", rows_json(&r)),
                        Err(e) => sh.failed(Fail::Mismatch(e)),
                    },
                    Err(e) => bad("transaction scan", e.to_string()),
                }
            }
            Act::Commit => {
                let Some(t) = txn.take() else { continue };
                sh.gate(&exec, false, false, false, true).await;
                let _b = Busy::on(&sh.commits);
                let o = sh.start(json!({"k": "commit", "ws": rows_json(&staged), "t": cur}));
                match t.commit().await {
                    Ok(()) => sh.finish(o, "res", json!("ok")),
                    Err(TransactionCommitError::WriteConflict(_)) => sh.finish(o, "res", json!("conflict")),
                    Err(e) => bad("commit", e.to_string()),
                }
            }
            Act::Seal => {
                // known finding K03: sealing during a scan blocks a single-threaded executor
                wait(&exec, || sh.scans.load(SeqCst) == 0).await;
                if let Err(e) = verif::seal(&db) {
                    bad("seal", e);
                }
            }
            // maintenance may lose a race for the manifest and be refused; the data must be right
            Act::Flush => maint(verif::flush(&db).await.is_ok()),
            Act::Compact => {
                let (pl, rows) = planner(&mut rng, p.fan);
                maint(verif::compact_once(&db, CompactionStrategy::Leveled(pl), rows, None).await.is_ok())
            }
            Act::Rotate => maint(verif::rotate_wal(&db).await.is_ok()),
            Act::Prune => verif::prune_wal(&db).await,
        }
    }
    drop(snap);
    drop(txn);
    drop(db);
    sh.running.fetch_sub(1, SeqCst);
}

fn batch(rng: &mut Rng, nk: usize, vid: &mut i64, max: u64) -> Rows {
    let n = 1 + rng.below(max) as usize;
    let mut ks: Vec<usize> = (1..=nk).collect();
    while ks.len() > n {
        let i = rng.below(ks.len() as u64) as usize;
        ks.remove(i);
    }
    ks.into_iter()
        .map(|k| {
            if rng.chance(1, 4) {
                (k, 0)
            } else {
                *vid += 1;
                (k, *vid)
            }
        })
        .collect()
}

fn program(rng: &mut Rng, nk: usize, vid: &mut i64) -> Vec<Act> {
    let mut acts = Vec::new();
    for _ in 0..1 + rng.below(3) {
        match rng.below(8) {
            0..=2 => acts.push(Act::Ingest(batch(rng, nk, vid, 3))),
            3 => acts.push(Act::Scan),
            4 => {
                acts.push(Act::Snap);
                for _ in 0..1 + rng.below(2) {
                    acts.push(Act::SnapScan);
                }
            }
            _ => {
                acts.push(Act::Begin);
                if rng.chance(1, 3) {
                    acts.push(Act::TxnScan);
                }
                acts.push(Act::Stage(batch(rng, nk, vid, 2)));
                if rng.chance(1, 2) {
                    acts.push(Act::TxnScan);
                }
                acts.push(Act::Commit);
            }
        }
    }
    acts
}

fn maintenance(rng: &mut Rng) -> Vec<Act> {
    (0..2 + rng.below(5))
        .map(|_| match rng.below(9) {
            0..=2 => Act::Seal,
            3..=5 => Act::Flush,
            6 => Act::Compact,
            7 => Act::Rotate,
            _ => Act::Prune,
        })
        .collect()
}

pub struct Shape {
    pub polite: bool,
    pub crash: bool,
    pub auto: bool,
}

/// Run one history. `budget`: scheduling steps before the process dies.
fn run_once(seed: u64, pname: &str, shape: &Shape, budget: Option<u64>) -> (Res<Value>, u64, (usize, usize)) {
    let mut rng = Rng::new(seed);
    let nk = 3;
    let mut p = profile::profile(pname);
    p.select(nk, |n| rng.below(n));
    let mut cfg = Cfg { seed, random_sched: true, ..Default::default() };
    if rng.chance(1, 2) {
        cfg.seg_bytes = 400 + rng.below(3000) as usize;
    }
    if shape.auto {
        cfg.auto = Some(rng.next() | 1 << (rng.below(4)));
    }
    let mut inst = Inst::new(p.clone(), cfg);
    let sh = Arc::new(Shared {
        ops: Mutex::default(),
        ev: Mutex::default(),
        fail: Mutex::default(),
        running: AtomicUsize::new(0),
        ingests: AtomicI64::new(0),
        commits: AtomicI64::new(0),
        begins: AtomicI64::new(0),
        scans: AtomicI64::new(0),
        maint_ok: AtomicUsize::new(0),
        maint_err: AtomicUsize::new(0),
        polite: shape.polite,
        auto: shape.auto,
        profile: Arc::new(p.clone()),
    });
    let mut vid = 0;
    let mut used = 0;
    let r: Res<()> = (|| {
        inst.open()?;
        // something is committed first (known finding K01), some of it already in files
        let db = inst.db().clone();
        let exec = inst.exec.clone();
        let mut pre: Vec<Act> = vec![Act::Ingest(batch(&mut rng, nk, &mut vid, 3))];
        pre.extend((0..rng.below(5)).map(|_| match rng.below(4) {
            0 => Act::Ingest(batch(&mut rng, nk, &mut vid, 3)),
            1 => Act::Seal,
            2 => Act::Flush,
            _ => Act::Rotate,
        }));
        sh.running.fetch_add(1, SeqCst);
        inst.run("setup", client(db.clone(), exec.clone(), sh.clone(), pre, Rng::new(seed ^ 9), 9))?;
        inst.fs.set_yields(true);
        let n = 2 + rng.below(3) as usize;
        for c in 0..n {
            let acts = program(&mut rng, nk, &mut vid);
            sh.running.fetch_add(1, SeqCst);
            inst.exec.spawn_here(client(db.clone(), exec.clone(), sh.clone(), acts, Rng::new(seed ^ (77 + c as u64)), c + 1));
        }
        for c in 0..1 + rng.below(2) {
            let acts = maintenance(&mut rng);
            sh.running.fetch_add(1, SeqCst);
            inst.exec.spawn_here(client(db.clone(), exec.clone(), sh.clone(), acts, Rng::new(seed ^ (177 + c)), 20));
        }
        drop(db);
        drop(exec);
        let sh2 = sh.clone();
        used = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            inst.exec.run_until(|| sh2.running.load(SeqCst) == 0, budget.unwrap_or(u64::MAX))
        }))
        .map_err(|_| Fail::Panic("panic in a client".into()))?
        .map_err(|s| Fail::Stuck(format!("{s:?} with {} clients unfinished", sh2.running.load(SeqCst))))?;
        if let Some(f) = sh.fail.lock().unwrap().take() {
            return Err(f);
        }
        if budget.is_some() {
            inst.crash_with(true);
            inst.cfg.start += LEASE;
            inst.exec = SimExec::new(seed ^ 5, false, inst.cfg.start);
            for c in [&sh.ingests, &sh.commits, &sh.begins, &sh.scans] {
                c.store(0, SeqCst);
            }
            sh.ev.lock().unwrap().push(json!([2, 0]));
            inst.open().map_err(|f| f.context("open after the crash"))?;
        } else {
            inst.fs.set_yields(false);
        }
        let mut fin = vec![Act::Scan];
        if rng.chance(1, 2) {
            fin.extend([Act::Seal, Act::Flush, Act::Compact, Act::Scan]);
        }
        sh.running.fetch_add(1, SeqCst);
        inst.run("final reads", client(inst.db().clone(), inst.exec.clone(), sh.clone(), fin, Rng::new(seed ^ 3), 30))?;
        if rng.chance(1, 2) {
            inst.crash();
            sh.ev.lock().unwrap().push(json!([2, 0]));
            inst.open().map_err(|f| f.context("open after a final crash"))?;
            sh.running.fetch_add(1, SeqCst);
            inst.run("final reads", client(inst.db().clone(), inst.exec.clone(), sh.clone(), vec![Act::Scan], Rng::new(seed ^ 3), 31))?;
        }
        match sh.fail.lock().unwrap().take() {
            Some(f) => Err(f),
            None => Ok(()),
        }
    })();
    let hist = json!({"polite": shape.polite, "profile": pname, "seed": seed,
        "ops": *sh.ops.lock().unwrap(), "ev": *sh.ev.lock().unwrap()});
    let m = (sh.maint_ok.load(SeqCst), sh.maint_err.load(SeqCst));
    (r.map(|()| hist), used, m)
}

/// One recorded history, or what went wrong while recording it.
pub fn case(seed: u64, pname: &str, shape: &Shape) -> (Case, Option<Value>) {
    let mut c = Case { info: json!({"profile": pname, "seed": seed}), ..Default::default() };
    let budget = if shape.crash {
        let (r, used, _) = run_once(seed, pname, shape, None);
        if let Err(f) = r {
            c.fail = Some((usize::MAX, f));
            return (c, None);
        }
        Some(1 + Rng::new(seed ^ 0xC0).below(used.max(2)))
    } else {
        None
    };
    let (r, used, (ok, no)) = run_once(seed, pname, shape, budget);
    c.count("scheduling steps", used);
    c.count("maintenance done", ok as u64);
    c.count("maintenance refused", no as u64);
    match r {
        Ok(h) => {
            c.steps = h["ev"].as_array().map(|a| a.len() as u64).unwrap_or(0);
            (c, Some(h))
        }
        Err(f) => {
            c.fail = Some((usize::MAX, f));
            (c, None)
        }
    }
}
