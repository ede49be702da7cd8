//! Worker pool for independent cases, with a watchdog: a case that panics, or that makes no
//! progress for a long time, is a failure of that case, not of the harness.

use std::{
    collections::BTreeMap,
    panic::AssertUnwindSafe,
    sync::{
        Arc, Mutex,
        atomic::{AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::{driver::Fail, simexec};

/// A healthy case takes well under a second.
const HANG: Duration = Duration::from_secs(150);

/// What one case did.
#[derive(Default)]
pub struct Case {
    pub steps: u64,
    pub observations: u64,
    pub counts: BTreeMap<String, u64>,
    /// step index and what went wrong
    pub fail: Option<(usize, Fail)>,
    /// context for the failure report
    pub info: Value,
}

impl Case {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
}

#[derive(Default)]
struct Acc {
    cases: u64,
    steps: u64,
    observations: u64,
    counts: BTreeMap<String, u64>,
    failures: Vec<Value>,
    running: BTreeMap<usize, Instant>,
}

fn report(g: &Acc) {
    println!(
        "{}",
        json!({"behaviours": g.cases, "steps": g.steps, "observations": g.observations,
               "counts": g.counts, "failures": g.failures})
    );
}

/// Run cases lo..hi on all cores and print one JSON object. `steps_of` renders a case for reports.
pub fn run_cases<F, S>(lo: usize, hi: usize, max_fail: usize, f: F, steps_of: S)
where
    F: Fn(usize) -> Case + Send + Sync + 'static,
    S: Fn(usize, Option<usize>) -> Value + Send + Sync + 'static,
{
    let next = Arc::new(AtomicUsize::new(lo));
    let acc = Arc::new(Mutex::new(Acc::default()));
    let (f, steps_of) = (Arc::new(f), Arc::new(steps_of));
    let mut hs = Vec::new();
    for _ in 0..8 {
        let (next, acc, f, steps_of) = (next.clone(), acc.clone(), f.clone(), steps_of.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= hi || acc.lock().unwrap().failures.len() >= max_fail {
                            break;
                        }
                        acc.lock().unwrap().running.insert(i, Instant::now());
                        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
                            simexec::with_rt(|| f(i))
                        }));
                        let case = r.unwrap_or_else(|p| {
                            let msg = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            Case {
                                fail: Some((usize::MAX, Fail::Panic(msg))),
                                ..Default::default()
                            }
                        });
                        let mut g = acc.lock().unwrap();
                        g.running.remove(&i);
                        g.cases += 1;
                        g.steps += case.steps;
                        g.observations += case.observations;
                        for (k, n) in case.counts {
                            *g.counts.entry(k).or_default() += n;
                        }
                        if let Some((step, fail)) = case.fail {
                            let upto = (step != usize::MAX).then_some(step);
                            g.failures.push(json!({
                                "behaviour": i, "step": upto.map(|s| s + 1),
                                "failure": fail.to_string(), "info": case.info,
                                "steps": steps_of(i, upto),
                            }));
                        }
                    }
                })
                .unwrap(),
        );
    }
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
        let mut g = acc.lock().unwrap();
        let hung = g.running.iter().find(|(_, t)| t.elapsed() > HANG).map(|(i, _)| *i);
        if let Some(i) = hung {
            let v = json!({
                "behaviour": i, "step": null,
                "failure": format!("no progress for {} s of real time", HANG.as_secs()),
                "info": null, "steps": steps_of(i, None),
            });
            g.failures.push(v);
            report(&g);
            std::process::exit(0);
        }
    }
    report(&acc.lock().unwrap());
}
