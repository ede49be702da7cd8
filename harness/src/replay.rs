//! Replay of behaviours generated from the specification.

use std::sync::Arc;

use arrow_array::{ArrayRef, RecordBatch};
use arrow_schema::{DataType, Field, Schema};
use serde_json::Value;
use tonbo::db::{LeveledPlannerConfig, verif::KeyOwned};

use crate::{
    driver::{Cfg, Fail, Inst, LEASE, Res, Rows},
    simexec::SimExec,
    simfs::{Fault, Image, Op, SimFs},
};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x2545F4914F6CDD1D);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

pub fn rows_of(v: &Value) -> Rows {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_i64().unwrap()))
                .collect()
        })
        .unwrap_or_default()
}

/// Rows of an ingest step; superseded duplicates get a value that must never surface.
pub fn batch_rows(step: &Value, rng: &mut Rng) -> Rows {
    step["rows"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let k = p[0].as_u64().unwrap() as usize;
            let v = p[1].as_i64().unwrap();
            match p[2].as_u64() {
                // superseded: a delete if the row that counts is an upsert, or the other way round
                Some(1) if rng.chance(1, 3) => (k, if v == 0 { 1_000_000 } else { 0 }),
                Some(1) => (k, 1_000_000 + v),
                _ => (k, v),
            }
        })
        .collect()
}

pub fn is_closed(v: &Value) -> bool {
    v.as_array().is_some_and(|a| a.len() == 1 && a[0][0].as_u64() == Some(0))
}

pub fn expect_rows(what: &str, got: Rows, want: &Rows) -> Res<()> {
    if &got != want {
        return Err(Fail::Mismatch(format!(
            "{what}: engine returned {got:?}, specification requires {want:?} (pairs of key index, write id)"
        )));
    }
    Ok(())
}

pub fn planner(rng: &mut Rng, fan: usize) -> (LeveledPlannerConfig, Option<usize>) {
    let mut p = LeveledPlannerConfig::default();
    p.l0_trigger = 1 + rng.below(2) as usize;
    p.l0_max_inputs = 1 + rng.below(4) as usize;
    p.level_thresholds = vec![1 + rng.below(3) as usize, 1 + rng.below(3) as usize];
    p.max_inputs_per_task = 1 + rng.below(4) as usize;
    let max_rows = if rng.chance(1, 2) { let n = 1 + rng.below(3) as usize;
        Some(if fan > 1 { n * (fan / 2 + rng.below(fan as u64 / 2) as usize) } else { n })
    } else {
        None
    };
    (p, max_rows)
}

/// Apply one step of a behaviour.
pub fn apply(inst: &mut Inst, step: &Value, rng: &mut Rng) -> Res<()> {
    let op = step["op"].as_str().unwrap();
    let id = step["id"].as_u64().unwrap_or(0);
    let k = step["k"].as_u64().unwrap_or(0) as usize;
    match op {
        "end" | "query" => Ok(()),
        "damage" => damage(inst, step, rng),
        "reject" => reject(inst, step, rng),
        "ingest" => inst.ingest(&batch_rows(step, rng), rng.chance(1, 2)),
        "tx" => {
            let rows = batch_rows(step, rng);
            inst.begin(u64::MAX)?;
            for (k, v) in rows {
                match v {
                    0 => inst.del(u64::MAX, k)?,
                    _ => inst.put(u64::MAX, k, v, rng.below(3))?,
                }
            }
            match inst.commit(u64::MAX)? {
                "ok" => Ok(()),
                r => Err(Fail::Mismatch(format!("a transaction without competitors ended in {r}"))),
            }
        }
        "seal" => inst.seal().map(|_| ()),
        "flush" => match inst.flush()? {
            true => Ok(()),
            // after a crash inside a flush the files may already hold what the model re-flushes
            false if inst.loose => Ok(()),
            false => Err(Fail::Mismatch("flush: nothing was flushed although sealed data exists".into())),
        },
        "compact" => {
            let (p, max_rows) = planner(rng, inst.profile.fan);
            inst.compact(p, max_rows, None).map(|_| ())
        }
        "rotate" => inst.rotate(),
        "prune" => inst.prune(),
        "snap" => inst.snap(id),
        "begin" => inst.begin(id),
        "put" => inst.put(id, k, step["v"].as_i64().unwrap(), rng.next()),
        "del" => inst.del(id, k),
        "commit" => {
            let want = step["res"].as_str().unwrap();
            let got = inst.commit(id)?;
            if got != want {
                return Err(Fail::Mismatch(format!(
                    "commit of transaction {id}: engine answered {got}, specification requires {want}"
                )));
            }
            Ok(())
        }
        "abort" => {
            inst.abort(id);
            Ok(())
        }
        "reopen" => {
            inst.close();
            inst.open()
        }
        "crash" => {
            inst.crash();
            inst.open()
        }
        other => Err(Fail::Error(format!("harness: unknown step {other}"))),
    }
}

/// Offer a write the table cannot accept; it has to be refused.
fn reject(inst: &mut Inst, step: &Value, rng: &mut Rng) -> Res<()> {
    let (id, k) = (step["id"].as_u64().unwrap(), step["k"].as_u64().unwrap() as usize);
    let v = step["v"].as_i64().unwrap();
    let p = inst.profile.clone();
    let other = 1 + k % p.nk();
    let good = p.batch(&[(k, v), (other, v)]);
    let rows = good.num_rows();
    let at = rng.below(rows as u64) as usize;
    let with = |fields: Vec<Field>, cols: Vec<ArrayRef>| {
        RecordBatch::try_new(Arc::new(Schema::new(fields)), cols).expect("batch")
    };
    let fields = || p.schema.fields().iter().map(|f| f.as_ref().clone()).collect::<Vec<_>>();
    let cols = || good.columns().to_vec();
    let n = p.schema.fields().len();
    let c = rng.below(n as u64) as usize;
    let kc = p.key_cols[rng.below(p.key_cols.len() as u64) as usize];
    let nullable = p.schema.field(kc).is_nullable();
    let nulled = || {
        let mut cs = cols();
        let cells: Vec<_> = (0..rows)
            .map(|i| if i == at { None } else { crate::profile::cell_at(&cs[kc], i) })
            .collect();
        cs[kc] = crate::profile::array_of(p.schema.field(kc).data_type(), &cells);
        cs
    };
    // a row that only its commit may refuse gets a transaction of its own
    if rng.chance(1, 6) {
        let db = inst.db();
        let mut t = match inst.run("begin", db.begin_transaction())? {
            Ok(t) => t,
            Err(e) => return Err(Fail::Mismatch(format!("begin_transaction: {e:?}"))),
        };
        let mut row = p.dyn_row(k, v);
        let hole = p.schema.index_of(if rng.chance(1, 2) { "vid" } else { "ok" }).unwrap();
        row.0[hole] = None;
        let _ = t.upsert(p.dyn_row(other, v));
        if t.upsert(row).is_err() {
            return Ok(());
        }
        return match inst.run("commit", t.commit())? {
            Err(_) => Ok(()),
            Ok(()) => Err(Fail::Mismatch("a transaction stored a null in a column that may not be null".into())),
        };
    }
    let (what, batch, dels) = match rng.below(if id > 0 { 12 } else { 8 }) {
        0 | 1 if nullable => {
            let del = rng.chance(1, 3);
            let dels = rng.chance(1, 2).then(|| (0..rows).map(|i| del && i == at).collect::<Vec<_>>());
            ("a null key", with(fields(), nulled()), dels)
        }
        0 | 1 | 2 => {
            let (mut f, mut cs) = (fields(), cols());
            f.remove(c);
            cs.remove(c);
            ("a missing column", with(f, cs), rng.chance(1, 2).then(|| vec![false; rows]))
        }
        3 => {
            let (mut f, mut cs) = (fields(), cols());
            let name = ["more", "_commit_ts", "_tombstone"][rng.below(3) as usize];
            f.push(Field::new(name, DataType::UInt64, false));
            cs.push(Arc::new(arrow_array::UInt64Array::from(vec![1u64; rows])));
            ("an extra column", with(f, cs), rng.chance(1, 2).then(|| vec![false; rows]))
        }
        4 => {
            let (mut f, mut cs) = (fields(), cols());
            f[c] = Field::new(f[c].name(), DataType::UInt16, f[c].is_nullable());
            cs[c] = Arc::new(arrow_array::UInt16Array::from(vec![7u16; rows]));
            ("a column of another type", with(f, cs), rng.chance(1, 2).then(|| vec![false; rows]))
        }
        5 => {
            let mut f = fields();
            f[c] = f[c].clone().with_name("renamed");
            ("a renamed column", with(f, cols()), rng.chance(1, 2).then(|| vec![false; rows]))
        }
        6 => ("a short tombstone bitmap", good.clone(), Some(vec![rng.chance(1, 2); rows - 1])),
        7 => ("a long tombstone bitmap", good.clone(), Some(vec![rng.chance(1, 2); rows + 1])),
        how => {
            let t = inst.txns.get_mut(&id).unwrap();
            let mut row = p.dyn_row(k, v);
            let r = match how {
                8 => {
                    row.0.pop();
                    t.upsert(row)
                }
                9 => {
                    row.0.push(None);
                    t.upsert(row)
                }
                10 => {
                    row.0[kc] = None;
                    t.upsert(row)
                }
                _ => t.delete(KeyOwned::tuple(vec![KeyOwned::from(true); p.key_cols.len() + 1])),
            };
            return match r {
                Err(_) => Ok(()),
                Ok(()) => Err(Fail::Mismatch(format!("a transaction accepted a malformed row or key (kind {how})"))),
            };
        }
    };
    let db = inst.db();
    let r = match dels {
        Some(d) => inst.run("ingest", db.ingest_with_tombstones(batch, d))?,
        None => inst.run("ingest", db.ingest(batch))?,
    };
    match r {
        Err(_) => Ok(()),
        Ok(()) => Err(Fail::Mismatch(format!("a batch with {what} was accepted"))),
    }
}

/// Damage copies of the log and open them: refused, or the table of one allowed moment.
fn damage(inst: &Inst, step: &Value, rng: &mut Rng) -> Res<()> {
    let allow: Vec<Rows> = step["allow"].as_array().unwrap().iter().map(rows_of).collect();
    let img = inst.fs.image();
    let logs: Vec<String> = img
        .files
        .iter()
        .filter(|(p, f)| p.ends_with(".tonwal") && !f.data.is_empty())
        .map(|(p, _)| p.clone())
        .collect();
    let states: Vec<String> =
        img.files.keys().filter(|p| p.contains("/wal/") && p.ends_with("state.json")).cloned().collect();
    for i in 0..8 {
        let mut img = img.clone();
        // what must not be refused, and what must not lose anything
        let (mut must_open, mut complete) = (false, false);
        let what = match rng.below(9) {
            8 if !logs.is_empty() => {
                let p = &logs[rng.below(logs.len() as u64) as usize];
                img.files.remove(p);
                format!("{p} lost")
            }
            0 if !states.is_empty() => {
                (must_open, complete) = (true, true);
                img.files.remove(&states[0]);
                "the log's state file lost".to_string()
            }
            1 if !states.is_empty() => {
                let f = img.files.get_mut(&states[0]).unwrap();
                let n = rng.below(f.data.len() as u64) as usize;
                f.data.truncate(n);
                format!("the log's state file cut to {n} bytes")
            }
            _ if logs.is_empty() => continue,
            2 | 3 => {
                let p = if rng.chance(1, 2) {
                    must_open = true;
                    logs.last().unwrap()
                } else {
                    &logs[rng.below(logs.len() as u64) as usize]
                };
                let f = img.files.get_mut(p).unwrap();
                let mut n = rng.below(f.data.len() as u64) as usize;
                if rng.chance(1, 3) {
                    // exactly between two records
                    n = (0..=n).rev().find(|i| f.data[*i..].starts_with(b"QNOT")).unwrap_or(n);
                }
                f.data.truncate(n);
                format!("{p} cut to {n} bytes")
            }
            4 => {
                let p = &logs[rng.below(logs.len() as u64) as usize];
                let f = img.files.get_mut(p).unwrap();
                let at = rng.below(f.data.len() as u64) as usize;
                let n = (1 + rng.below(40) as usize).min(f.data.len() - at);
                let zero = rng.chance(1, 2);
                for b in &mut f.data[at..at + n] {
                    *b = if zero { 0 } else { rng.next() as u8 };
                }
                format!("{p}: bytes {at}..{} overwritten", at + n)
            }
            _ => {
                let p = &logs[rng.below(logs.len() as u64) as usize];
                let f = img.files.get_mut(p).unwrap();
                // headers are a small part of the log: aim at them half the time
                let heads: Vec<usize> =
                    (0..f.data.len().saturating_sub(24)).filter(|i| f.data[*i..].starts_with(b"QNOT")).collect();
                let at = if !heads.is_empty() && rng.chance(1, 2) {
                    heads[rng.below(heads.len() as u64) as usize] + rng.below(24) as usize
                } else {
                    rng.below(f.data.len() as u64) as usize
                };
                let bit = rng.below(8);
                f.data[at] ^= 1 << bit;
                format!("{p}: bit {bit} of byte {at} flipped")
            }
        };
        // known finding K07: nothing tells that the oldest log file is missing
        if logs.first().is_some_and(|p| img.files.get(p).is_none_or(|f| f.data.is_empty())) {
            continue;
        }
        let mut probe = Inst::with_fs(
            inst.profile.clone(),
            Cfg { seed: inst.cfg.seed ^ i, start: inst.exec.vnow() + LEASE, ..inst.cfg.clone() },
            SimFs::from_image(inst.cfg.tag, &img),
        );
        match probe.open() {
            Err(Fail::Error(e)) if must_open => {
                return Err(Fail::Error(format!("open refused ({what}): {e}")));
            }
            Err(Fail::Error(_)) => continue,
            Err(f) => return Err(f.context(&format!("open ({what})"))),
            Ok(()) => {}
        }
        let got = probe.scan().map_err(|f| f.context(&what))?;
        let ok = if complete { allow.last() == Some(&got) } else { allow.contains(&got) };
        if !ok {
            return Err(Fail::Mismatch(format!(
                "{what}: the table opened as {got:?}, specification allows {allow:?}"
            )));
        }
    }
    Ok(())
}

/// Compare every observation the specification predicts after a step.
pub fn observe(inst: &Inst, step: &Value, rng: &mut Rng, nk: usize) -> Res<u64> {
    let mut n = 0;
    expect_rows("scan", inst.scan()?, &rows_of(&step["view"]))?;
    n += 1;
    if let Some(sv) = step["sv"].as_array() {
        for (i, v) in sv.iter().enumerate() {
            if !is_closed(v) {
                let id = i as u64 + 1;
                expect_rows(&format!("snapshot {id} scan"), inst.snap_scan(id)?, &rows_of(v))?;
                n += 1;
            }
        }
    }
    if let Some(tv) = step["tv"].as_array() {
        for (i, v) in tv.iter().enumerate() {
            if !is_closed(v) {
                let id = i as u64 + 1;
                let want = rows_of(v);
                expect_rows(&format!("transaction {id} scan"), inst.txn_scan(id)?, &want)?;
                n += 1;
                let k = 1 + rng.below(nk as u64) as usize;
                let wk = want.iter().find(|(x, _)| *x == k).map(|(_, v)| *v);
                let got = inst.txn_get(id, k)?;
                if got != wk {
                    return Err(Fail::Mismatch(format!(
                        "transaction {id} point read of key {k}: engine returned {got:?}, specification requires {wk:?}"
                    )));
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

pub struct Outcome {
    pub steps: u64,
    pub observations: u64,
    pub crash_points: u64,
    /// storage faults that hit, by the step they hit
    pub faults: std::collections::BTreeMap<String, u64>,
    pub fail: Option<(usize, Fail)>,
}

/// How crash points inside a step are explored.
#[derive(Clone, Copy)]
pub struct CrashCfg {
    /// Crash points tried per step besides the two ends (0: every one).
    pub samples: usize,
}

/// Run `step`, then explore what storage looks like had the process died inside it; continue from
/// one of those images. `die` carries the two tables the specification allows.
fn die_in(
    inst: &mut Inst,
    step: &Value,
    die: &Value,
    rng: &mut Rng,
    cc: CrashCfg,
    out: &mut Outcome,
) -> Res<()> {
    if step["op"] == "crash" {
        inst.crash();
    }
    let img0 = inst.fs.image();
    let start = inst.fs.log_len();
    if step["op"] == "crash" {
        inst.open()?;
    } else {
        apply(inst, step, rng)?;
    }
    let ops: Vec<Op> = inst.fs.log().split_off(start);
    inst.fs.freeze();
    inst.crash();
    if rng.chance(1, 2) {
        inst.cfg.start += LEASE;
    }
    let (v0, v1) = (rows_of(&die["v0"]), rows_of(&die["v1"]));
    let took = die["took"].as_u64() == Some(1);

    // (operations applied, bytes of the next write that made it)
    let mut points: Vec<(usize, Option<usize>)> = Vec::new();
    for c in 0..=ops.len() {
        let noop = c > 0 && matches!(ops[c - 1], Op::Mark(_) | Op::Sync(_));
        if c == 0 || c == ops.len() || !noop {
            points.push((c, None));
        }
        if let Some(Op::Write { data, .. }) = ops.get(c) && data.len() > 1 {
            let n = if cc.samples == 0 { 3 } else { 1 };
            for _ in 0..n {
                points.push((c, Some(1 + rng.below(data.len() as u64 - 1) as usize)));
            }
        }
    }
    let chosen: Vec<usize> = if cc.samples == 0 || points.len() <= cc.samples + 2 {
        (0..points.len()).collect()
    } else {
        let last = points.iter().position(|p| p.0 == ops.len()).unwrap();
        let mut c: Vec<usize> = (0..cc.samples)
            .map(|_| 1 + rng.below(points.len() as u64 - 1) as usize)
            .chain([0, last])
            .collect();
        c.sort();
        c.dedup();
        c
    };
    let image = |(c, torn): (usize, Option<usize>)| {
        let mut img = Image::at_prefix(&img0, &ops, c);
        if let Some(n) = torn {
            img.apply_torn(&ops[c], Some(n));
        }
        img
    };
    let mut matching = Vec::new();
    let mut seen_v1 = false;
    for i in chosen {
        let pt = points[i];
        let img = image(pt);
        let at = || {
            let op = ops.get(pt.0).map(|o| o.describe()).unwrap_or("end of the step".into());
            let torn = pt.1.map(|n| format!(" ({n} bytes of it written)")).unwrap_or_default();
            format!("crash inside {} before storage operation {}/{} {op}{torn}", step["op"], pt.0, ops.len())
        };
        out.crash_points += 1;
        let mut probe = Inst::with_fs(
            inst.profile.clone(),
            Cfg { seed: inst.cfg.seed ^ i as u64, ..inst.cfg.clone() },
            SimFs::from_image(inst.cfg.tag, &img),
        );
        let rec: Res<Rows> = (|| {
            probe.open()?;
            let got = probe.scan()?;
            if rng.chance(1, 3) {
                probe.crash();
                probe.open()?;
                expect_rows("scan after a second recovery", probe.scan()?, &got)?;
            }
            Ok(got)
        })();
        let got = match rec {
            Ok(v) => v,
            Err(f) => return Err(f.context(&at())),
        };
        out.observations += 1;
        let done = pt.0 == ops.len();
        if got != v1 && (done || got != v0) {
            return Err(Fail::Mismatch(format!(
                "{}: recovered {got:?}, specification allows {}{v1:?}",
                at(),
                if done { String::new() } else { format!("{v0:?} or ") },
            )));
        }
        if v0 != v1 {
            if got == v1 {
                seen_v1 = true;
            } else if seen_v1 {
                return Err(Fail::Mismatch(format!(
                    "{}: a step that an earlier crash point already kept is lost",
                    at()
                )));
            }
        }
        // where the table cannot tell whether a write took effect, only the ends of the step do
        let told = v0 != v1 || !(step["op"] == "ingest" || step["op"] == "tx" || step["op"] == "commit");
        if got == (if took { v1.clone() } else { v0.clone() })
            && (told || (took && done) || (!took && pt == (0, None)))
        {
            matching.push(pt);
        }
    }
    if matching.is_empty() {
        return Err(Fail::Mismatch("no crash point leads to the allowed table".into()));
    }
    let pt = matching[rng.below(matching.len() as u64) as usize];
    inst.fs = SimFs::from_image(inst.cfg.tag, &image(pt));
    inst.exec = SimExec::new(inst.cfg.seed ^ 0xABCD, inst.cfg.random_sched, inst.cfg.start);
    inst.loose = true;
    inst.open().map_err(|f| f.context("open after the crash"))
}

/// Storage operations of `step` that fail, at most a few in a row.
fn fault(rng: &mut Rng, op: &str) -> Fault {
    let kind = match rng.below(10) {
        0..=3 => "change",
        4..=5 => "any",
        6..=7 => "write",
        8 => ["open", "remove", "put"][rng.below(3) as usize],
        _ => ["list", "read"][rng.below(2) as usize],
    };
    let path_contains = match rng.below(6) {
        0 => "wal/",
        1 => "manifest",
        2 => "state.json",
        _ => "",
    };
    let span = match op {
        "crash" | "reopen" => 30,
        "flush" | "compact" => 16,
        _ => 5,
    };
    Fault {
        kind,
        path_contains: path_contains.into(),
        skip: rng.below(span) as usize,
        count: [1, 1, 2, 1000][rng.below(4) as usize],
        partial: if rng.chance(1, 2) { 0 } else { rng.below(60) as usize },
    }
}

/// Read again while one of the storage operations of the read fails: an error or the same answer.
fn failing_reads(inst: &mut Inst, want: &Rows, rng: &mut Rng) -> Res<()> {
    const FAR: usize = 1 << 40;
    let id = u64::MAX;
    let txn = rng.chance(1, 3) && inst.begin(id).is_ok();
    let k = 1 + rng.below(inst.profile.nk() as u64) as usize;
    let val = want.iter().find(|r| r.0 == k).map(|r| r.1);
    let read = |inst: &Inst| -> Res<bool> {
        if txn { inst.txn_get(id, k).map(|v| v == val) } else { inst.scan().map(|r| &r == want) }
    };
    let at = |skip| Fault { kind: "any", path_contains: String::new(), skip, count: 1, partial: 0 };
    inst.fs.add_fault(at(FAR));
    let clean = read(inst);
    let used = FAR - inst.fs.take_faults()[0].skip;
    if !clean? {
        return Err(Fail::Mismatch(format!("point read of key {k} in a new transaction is not {val:?}")));
    }
    for _ in 0..if used > 0 { 4 } else { 0 } {
        let skip = rng.below(used as u64) as usize;
        inst.fs.add_fault(at(skip));
        let r = read(inst);
        inst.fs.clear_faults();
        match r {
            Ok(true) | Err(Fail::Error(_)) => {}
            Ok(false) => {
                return Err(Fail::Mismatch(format!(
                    "a {} whose storage operation {skip} of {used} failed returned another answer instead of an error",
                    if txn { "point read" } else { "scan" },
                )));
            }
            Err(f) => return Err(f.context("read with a failing storage operation")),
        }
    }
    if txn {
        inst.abort(id);
    }
    Ok(())
}

/// Run `step` while a storage operation fails. Returns false if the engine went another of the
/// allowed ways than the rest of the behaviour.
fn fail_in(inst: &mut Inst, step: &Value, fail: &Value, rng: &mut Rng, out: &mut Outcome) -> Res<bool> {
    let op = step["op"].as_str().unwrap().to_string();
    let f = fault(rng, &op);
    let what = format!("storage fault {f:?} in {op}");
    let (v0, v1) = (rows_of(&fail["v0"]), rows_of(&fail["v1"]));
    let (w0, w1) = (rows_of(&fail["w0"]), rows_of(&fail["w1"]));
    let restart = op == "crash" || op == "reopen";
    if op == "crash" {
        inst.crash();
    }
    let hits = inst.fs.faults_hit();
    inst.fs.add_fault(f);
    let mut panicked = false;
    let ran = if op == "crash" { inst.open() } else { apply(inst, step, rng) };
    let mut done = match ran {
        Ok(()) => true,
        Err(Fail::Error(_)) => false,
        // a debug-only assertion in a destructor, which an error on the way also trips
        Err(Fail::Panic(m)) if m.contains("WriteContext dropped without closing") => {
            panicked = true;
            false
        }
        Err(f) => return Err(f.context(&what)),
    };
    if rng.chance(1, 2) || restart {
        inst.fs.clear_faults();
    }
    let hit = inst.fs.faults_hit() > hits;
    if hit {
        *out.faults.entry(op.clone()).or_default() += 1;
    } else if !done {
        inst.fs.clear_faults();
        return Err(Fail::Mismatch(format!("{op} failed although no storage operation did")));
    }
    inst.loose = true;
    let in_process = !(restart && !done) && !panicked;
    let mut wrote = Some(false);
    if in_process {
        let got = {
            let keep = inst.fs.take_faults();
            let got = inst.scan().map_err(|f| f.context(&format!("scan after {what}")))?;
            failing_reads(inst, &got, rng)?;
            inst.fs.put_faults(keep);
            got
        };
        out.observations += 1;
        if got != v1 && (done || got != v0) {
            return Err(Fail::Mismatch(format!(
                "after {what} ({}): the table is {got:?}, specification allows {}{v1:?}",
                if done { "reported done" } else { "reported failed" },
                if done { String::new() } else { format!("{v0:?} or ") },
            )));
        }
        let (k, v) = (fail["k"].as_u64().unwrap() as usize, fail["v"].as_i64().unwrap());
        wrote = match inst.ingest(&[(k, v)], rng.chance(1, 2)) {
            Ok(()) => Some(true),
            Err(Fail::Error(_)) => None,
            Err(f) => return Err(f.context(&format!("write after {what}"))),
        };
    }
    inst.fs.clear_faults();
    if restart && !done {
        // the open that failed counts as another death
        inst.crash();
        done = true;
    } else if rng.chance(1, 3) {
        inst.close();
    } else {
        inst.crash();
    }
    inst.cfg.start += LEASE;
    inst.open().map_err(|f| f.context(&format!("open after {what}")))?;
    let got = inst.scan().map_err(|f| f.context(&format!("scan after {what} and a restart")))?;
    out.observations += 1;
    let mut allowed: Vec<&Rows> = Vec::new();
    if wrote != Some(false) {
        allowed.push(&w1);
        if !done {
            allowed.push(&w0);
        }
    }
    if wrote != Some(true) {
        allowed.push(&v1);
        if !done {
            allowed.push(&v0);
        }
    }
    if !allowed.contains(&&got) {
        return Err(Fail::Mismatch(format!(
            "after {what} ({}; following write {}) and a restart: {got:?}, specification allows {allowed:?}",
            if done { "reported done" } else { "reported failed" },
            match wrote {
                Some(true) => "reported done",
                Some(false) => "not tried",
                None => "reported failed",
            },
        )));
    }
    // where the table cannot tell whether a write took effect, go on only if the engine said so
    if v0 == v1 && (op == "ingest" || op == "tx" || op == "commit") && !(done && fail["took"] == 1) {
        return Ok(false);
    }
    let want = match (fail["took"] == 1, fail["wrote"] == 1) {
        (false, false) => v0,
        (true, false) => v1,
        (false, true) => w0,
        (true, true) => w1,
    };
    Ok(got == want)
}

pub fn run_behaviour(
    steps: &[Value],
    profile: crate::profile::Profile,
    nk: usize,
    cfg: Cfg,
    seed: u64,
    observe_den: u64,
    cc: CrashCfg,
) -> Outcome {
    let mut rng = Rng::new(seed);
    let mut profile = profile;
    profile.select(nk, |n| rng.below(n));
    if profile.nk() < nk {
        // behaviours for more keys than this schema has are for other schemas
        return Outcome { steps: 0, observations: 0, crash_points: 0, faults: Default::default(), fail: None };
    }
    if steps.iter().any(|s| s["op"] == "reject") && rng.chance(1, 2) {
        profile.nullable_keys();
    }
    let auto = cfg.auto.is_some();
    let mut inst = Inst::new(profile, cfg);
    inst.loose = auto;
    let mut out = Outcome { steps: 0, observations: 0, crash_points: 0, faults: Default::default(), fail: None };
    if let Err(f) = inst.open() {
        out.fail = Some((0, f));
        return out;
    }
    let steps = match steps.last() {
        Some(s) if s["op"] == "end" => &steps[..steps.len() - 1],
        _ => steps,
    };
    let mut i = 0;
    while i < steps.len() {
        let mut step = &steps[i];
        let r = match steps.get(i + 1) {
            Some(fail) if fail["op"] == "fail" => {
                i += 1;
                let inner = step;
                step = fail;
                match fail_in(&mut inst, inner, fail, &mut rng, &mut out) {
                    Ok(false) => return out,
                    r => r.map(|_| ()),
                }
            }
            Some(die) if die["op"] == "die" => {
                i += 1;
                let inner = step;
                step = die;
                die_in(&mut inst, inner, die, &mut rng, cc, &mut out)
            }
            _ => apply(&mut inst, step, &mut rng),
        };
        if let Err(f) = r {
            out.fail = Some((i, f));
            return out;
        }
        out.steps += 1;
        if step["op"] == "query" {
            match crate::query::queries(&inst, step, &mut rng) {
                Ok(n) => out.observations += n,
                Err(f) => {
                    out.fail = Some((i, f));
                    return out;
                }
            }
        }
        let last = i + 1 == steps.len();
        if last || rng.below(observe_den) == 0 {
            match observe(&inst, step, &mut rng, nk) {
                Ok(n) => out.observations += n,
                Err(f) => {
                    out.fail = Some((i, f));
                    return out;
                }
            }
        }
        i += 1;
    }
    out
}
