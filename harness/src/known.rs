//! Reproductions of the recorded known findings (known-findings.json): each returns true while
//! the engine still misbehaves in exactly the recorded way.

use crate::{
    driver::{Cfg, Inst, Res},
    profile,
};

fn inst(name: &str) -> Inst {
    let mut p = profile::profile(name);
    p.select(4, |_| 0);
    Inst::new(p, Cfg::default())
}

/// A snapshot taken on a table that never committed anything sees the first commit.
fn snapshot_before_first_commit() -> Res<bool> {
    let mut db = inst("utf8");
    db.open()?;
    db.snap(1)?;
    let before = db.snap_scan(1)?;
    db.ingest(&[(1, 1)], true)?;
    Ok(before.is_empty() && db.snap_scan(1)? == vec![(1, 1)])
}

/// Same for a transaction.
fn transaction_before_first_commit() -> Res<bool> {
    let mut db = inst("utf8");
    db.open()?;
    db.begin(1)?;
    let before = db.txn_scan(1)?;
    db.ingest(&[(1, 1)], true)?;
    Ok(before.is_empty() && db.txn_scan(1)? == vec![(1, 1)])
}

/// Sealing the write buffer while a scan stream is open blocks the thread for good, although the
/// scan could only go on from there.
fn seal_during_scan() -> Res<bool> {
    use futures::StreamExt;
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        crate::simexec::with_rt(|| {
            let mut db = inst("utf8");
            let _ = db.open();
            let _ = db.ingest(&[(1, 1)], true);
            let d = db.db().clone();
            let _ = db.run("scan", async {
                let mut s = d.scan().stream().await.map_err(|e| e.to_string())?;
                let _ = tx.send(0);
                tonbo::db::verif::seal(&d)?;
                let _ = s.next().await;
                Ok::<(), String>(())
            });
        });
        let _ = tx.send(1);
    });
    let _ = rx.recv_timeout(std::time::Duration::from_secs(20));
    Ok(rx.recv_timeout(std::time::Duration::from_secs(3)).is_err())
}

/// Losing the oldest log file while nothing was flushed yet goes unnoticed: later writes are
/// recovered without the earlier ones.
fn oldest_log_file_lost() -> Res<bool> {
    let mut db = inst("utf8");
    db.open()?;
    db.ingest(&[(1, 1)], true)?;
    db.rotate()?;
    db.ingest(&[(2, 2)], true)?;
    let mut img = db.fs.image();
    let Some(first) = img.files.keys().filter(|p| p.ends_with(".tonwal")).min().cloned() else { return Ok(false) };
    img.files.remove(&first);
    let mut probe = Inst::with_fs(db.profile.clone(), db.cfg.clone(), crate::simfs::SimFs::from_image(db.cfg.tag, &img));
    probe.cfg.start = db.exec.vnow() + crate::driver::LEASE;
    probe.exec = crate::simexec::SimExec::new(1, false, probe.cfg.start);
    if probe.open().is_err() {
        return Ok(false);
    }
    Ok(probe.scan()? == vec![(2, 2)])
}

pub fn run(id: &str) -> Option<Res<bool>> {
    Some(match id {
        "snapshot-before-first-commit" => snapshot_before_first_commit(),
        "transaction-before-first-commit" => transaction_before_first_commit(),
        "seal-during-scan" => seal_during_scan(),
        "oldest-log-file-lost" => oldest_log_file_lost(),
        _ => return None,
    })
}
