//! Records what the log writer does to storage under each sync policy, for WalTrace.tla.
//!
//! The engine forces local log files to stable storage by path, so each case runs over `SimFs`
//! posing as a local filesystem, with empty stand-ins for the log files in a scratch directory and
//! fsync/fdatasync on those recorded instead of performed.

use std::{
    cell::RefCell,
    path::{Path as StdPath, PathBuf},
    sync::Arc,
    time::Duration,
};

use fusio::fs::FileSystemTag;
use serde_json::{Value, json};
use tonbo::db::verif::WalSyncPolicy;

use crate::{
    driver::{Cfg, Inst, Res},
    profile,
    replay::Rng,
    runner::Case,
    simfs::{Op, SimFs},
};

thread_local! {
    static WATCH: RefCell<Option<(PathBuf, SimFs)>> = const { RefCell::new(None) };
}

unsafe extern "C" {
    fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long;
}

/// True when `fd` is one of the watched stand-ins; the sync is then recorded.
fn watched(fd: i32) -> bool {
    WATCH
        .try_with(|w| {
            let w = w.borrow();
            let Some((dir, fs)) = w.as_ref() else { return false };
            let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{fd}")) else { return false };
            if !p.starts_with(dir) {
                return false;
            }
            fs.log_sync(p.to_string_lossy().trim_start_matches('/'));
            true
        })
        .unwrap_or(false)
}

#[cfg(target_os = "linux")]
#[unsafe(no_mangle)]
pub extern "C" fn fsync(fd: i32) -> i32 {
    if watched(fd) { 0 } else { unsafe { syscall(74, fd) as i32 } }
}

#[cfg(target_os = "linux")]
#[unsafe(no_mangle)]
pub extern "C" fn fdatasync(fd: i32) -> i32 {
    if watched(fd) { 0 } else { unsafe { syscall(75, fd) as i32 } }
}

fn seg_of(path: &str) -> Option<u64> {
    let name = path.rsplit('/').next()?;
    name.strip_prefix("wal-")?.strip_suffix(".tonwal")?.parse::<u64>().ok().map(|n| n + 1)
}

fn watch(dir: &StdPath, inst: &Inst) {
    inst.fs.set_mirror(PathBuf::from("/"));
    let exec = inst.exec.clone();
    inst.fs.set_clock(Arc::new(move || exec.vnow().as_millis() as u64));
    WATCH.with(|w| *w.borrow_mut() = Some((dir.to_path_buf(), inst.fs.clone())));
}

struct Shape {
    cfg: Value,
    policy: WalSyncPolicy,
    seg_bytes: usize,
    age: Option<u64>,
    keep: Option<usize>,
}

fn shape(rng: &mut Rng) -> Shape {
    let seg_bytes = if rng.chance(1, 4) { 0 } else { 700 + rng.below(5000) as usize };
    let age = rng.chance(1, 3).then(|| 20 + rng.below(200));
    let keep = rng.chance(1, 4).then(|| 1000 + rng.below(12_000) as usize);
    let (name, n, policy) = match rng.below(7) {
        0 | 1 => ("always", 0, WalSyncPolicy::Always),
        2 | 3 => {
            let n = 1 + rng.below(6000);
            ("bytes", n, WalSyncPolicy::IntervalBytes(n as usize))
        }
        4 | 5 => {
            let n = 5 + rng.below(120);
            ("time", n, WalSyncPolicy::IntervalTime(Duration::from_millis(n)))
        }
        _ => ("off", 0, WalSyncPolicy::Disabled),
    };
    Shape {
        cfg: json!({"sync": name, "n": n, "maxb": seg_bytes, "age": age.unwrap_or(0), "keep": keep.unwrap_or(0)}),
        policy,
        seg_bytes,
        age,
        keep,
    }
}

/// Log operations as WalTrace events.
fn events(fs: &SimFs, out: &mut Vec<Value>, clock: &mut u64) {
    let times = fs.times();
    for (op, t) in fs.log().iter().zip(times) {
        let ev = match op {
            Op::Mark(m) => match m.as_str() {
                "tick" => Value::Null,
                m => json!({"e": m, "s": 0, "n": 0}),
            },
            _ => {
                let Some(s) = op.path().and_then(seg_of) else { continue };
                match op {
                    Op::Create(_) => json!({"e": "create", "s": s, "n": 0}),
                    Op::Write { data, .. } if !data.is_empty() => json!({"e": "write", "s": s, "n": data.len()}),
                    Op::Sync(_) => json!({"e": "sync", "s": s, "n": 0}),
                    Op::Remove(_) => json!({"e": "remove", "s": s, "n": 0}),
                    _ => continue,
                }
            }
        };
        if t > *clock {
            *clock = t;
            out.push(json!({"e": "tick", "s": 0, "n": t}));
        }
        if !ev.is_null() {
            out.push(ev);
        }
    }
}

pub fn case(seed: u64, scratch: &StdPath) -> (Case, Option<Value>) {
    let mut rng = Rng::new(seed);
    let sh = shape(&mut rng);
    let dir = scratch.join(format!("w{seed}"));
    let mut out = Case { info: json!({"seed": seed, "cfg": sh.cfg}), ..Default::default() };
    let r = run(seed, &dir, &sh, &mut rng, &mut out);
    WATCH.with(|w| *w.borrow_mut() = None);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(ev) => {
            out.count("events", ev.len() as u64);
            let h = json!({"seed": seed, "profile": "utf8", "cfg": sh.cfg, "ops": [], "ev": ev});
            (out, Some(h))
        }
        Err(f) => {
            out.fail = Some((usize::MAX, f));
            (out, None)
        }
    }
}

fn run(seed: u64, dir: &StdPath, sh: &Shape, rng: &mut Rng, out: &mut Case) -> Res<Vec<Value>> {
    let _ = std::fs::create_dir_all(dir);
    let mut p = profile::profile(if rng.chance(1, 5) { "fan-utf8" } else { "utf8" });
    p.select(4, |n| rng.below(n));
    let cfg = Cfg {
        tag: FileSystemTag::Local,
        seed,
        root: dir.to_string_lossy().trim_start_matches('/').to_string(),
        seg_bytes: sh.seg_bytes,
        sync: sh.policy.clone(),
        seg_age_ms: sh.age,
        retention: sh.keep,
        flush_ms: Some(rng.below(2) * 10),
        state_store: !rng.chance(1, 4),
        queue: rng.chance(1, 4).then(|| 1 + rng.below(4) as usize),
        random_sched: rng.chance(1, 2),
        ..Default::default()
    };
    let mut inst = Inst::new(p, cfg);
    watch(dir, &inst);
    inst.open()?;
    let mut ev = Vec::new();
    let mut clock = 0;
    let mut wid = 0i64;
    let steps = 4 + rng.below(22);
    for _ in 0..steps {
        out.steps += 1;
        match rng.below(12) {
            0..=5 => {
                wid += 1;
                let k = 1 + rng.below(4) as usize;
                inst.ingest(&[(k, wid)], rng.chance(1, 2))?;
                inst.fs.mark("ack");
                out.count("writes", 1);
            }
            6 => {
                wid += 1;
                let k = 1 + rng.below(4) as usize;
                inst.begin(1)?;
                inst.put(1, k, wid, 0)?;
                inst.commit(1)?;
                inst.fs.mark("ack");
                out.count("commits", 1);
            }
            7 | 8 => {
                let ms = 1 + rng.below(150);
                inst.exec.run_for(Duration::from_millis(ms));
                inst.fs.mark("tick");
            }
            9 => {
                inst.rotate()?;
                out.count("rotations", 1);
            }
            10 if rng.chance(1, 3) => {
                inst.db = None;
                inst.exec.run_ready();
                inst.fs.mark("close");
                inst.close();
                events(&inst.fs, &mut ev, &mut clock);
                // the same storage under a fresh process
                let img = inst.fs.image();
                inst.cfg.start = inst.exec.vnow() + Duration::from_millis(1);
                inst.exec = crate::simexec::SimExec::new(seed ^ 7, inst.cfg.random_sched, inst.cfg.start);
                inst.fs = SimFs::from_image(inst.cfg.tag, &img);
                watch(dir, &inst);
                inst.open()?;
                inst.fs.mark("open");
                out.count("reopened", 1);
            }
            _ => {}
        }
    }
    events(&inst.fs, &mut ev, &mut clock);
    // Power failure: of every log file the synced part survives, and any part of the rest.
    let mut img = inst.fs.image();
    let synced = synced_lengths(&ev);
    let mut cut = false;
    for (path, f) in img.files.iter_mut() {
        let Some(s) = seg_of(path) else { continue };
        let safe = synced.get(&s).copied().unwrap_or(0) as usize;
        if f.data.len() > safe && !(rng.chance(1, 4)) {
            let keep = safe + rng.below((f.data.len() - safe) as u64) as usize;
            f.data.truncate(keep);
            cut = true;
        }
    }
    if sh.keep.is_none() {
        let mut probe = Inst::with_fs(inst.profile.clone(), Cfg { root: inst.cfg.root.clone(), ..inst.cfg.clone() }, SimFs::from_image(inst.cfg.tag, &img));
        watch(dir, &probe);
        probe.open().map_err(|f| f.context("open after a power failure"))?;
        let got = probe.scan()?;
        let r = got.iter().map(|(_, v)| *v).max().unwrap_or(0);
        ev.push(json!({"e": "recovered", "s": 0, "n": r}));
        out.observations += 1;
        out.count("power failures", 1);
        out.count("power failures that cost bytes", cut as u64);
    }
    Ok(ev)
}

fn synced_lengths(ev: &[Value]) -> std::collections::BTreeMap<u64, u64> {
    let (mut len, mut synced) = (std::collections::BTreeMap::new(), std::collections::BTreeMap::new());
    for e in ev {
        let s = e["s"].as_u64().unwrap();
        match e["e"].as_str().unwrap() {
            "write" => *len.entry(s).or_insert(0) += e["n"].as_u64().unwrap(),
            "sync" => {
                synced.insert(s, len.get(&s).copied().unwrap_or(0));
            }
            _ => {}
        }
    }
    synced
}
