//! Findings and statistics, printed as JSON lines.
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
}

#[derive(Default)]
pub struct Report {
    pub stats: BTreeMap<String, Stats>,
    pub seen: BTreeMap<(String, String), u64>,
    pub findings: u64,
    pub trace_hash: u64,
}

pub static REPORT: Mutex<Option<Report>> = Mutex::new(None);
pub static CURRENT: Mutex<(String, u64, u64, String)> = Mutex::new((String::new(), 0, 0, String::new()));

fn with<R>(f: impl FnOnce(&mut Report) -> R) -> R {
    let mut g = REPORT.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Report::default))
}

pub fn begin(suite: &str, seed: u64, index: u64) {
    let mut g = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    *g = (suite.to_string(), seed, index, String::new());
}
/// Human-readable description of the case being run (put into the replay file).
pub fn describe(d: String) {
    let mut g = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    g.3 = d;
}

pub fn rule(suite: &str, rule: &str) {
    with(|r| r.stats.entry(suite.to_string()).or_default().rule = rule.to_string());
}

/// One explored case; `nontrivial` gives its distinguishing fingerprint if it counts.
pub fn case(suite: &str, nontrivial: Option<u64>, sample: impl FnOnce() -> String) {
    with(|r| {
        let s = r.stats.entry(suite.to_string()).or_default();
        s.cases += 1;
        if let Some(h) = nontrivial {
            if s.distinct.insert(h) && s.samples.len() < 3 {
                let mut t = sample();
                if t.len() > 600 {
                    let mut n = 600;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    t.truncate(n);
                }
                s.samples.push(t);
            }
        }
    });
}

pub fn mix_trace(h: u64) {
    with(|r| r.trace_hash = (r.trace_hash.rotate_left(5) ^ h).wrapping_mul(0x100000001b3));
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Report a violation of one or several properties. At most 3 findings per (property, clause).
pub fn finding(props: &[&str], clause: &str, detail: String) {
    let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    with(|r| {
        for p in props {
            r.findings += 1;
            let n = r.seen.entry((p.to_string(), clause.to_string())).or_insert(0);
            *n += 1;
            if *n > 3 {
                continue;
            }
            println!(
                "{}",
                json!({"finding": {"property": p, "clause": clause, "detail": detail,
                    "suite": cur.0, "seed": cur.1, "index": cur.2, "case": cur.3}})
            );
        }
    });
}

/// A failure listed in KNOWN_FINDINGS.txt under `entry`.
pub fn known(props: &[&str], entry: &str, detail: String) {
    let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    with(|r| {
        for p in props {
            let n = r.seen.entry((p.to_string(), format!("known {}", entry))).or_insert(0);
            *n += 1;
            if *n == 1 {
                println!(
                    "{}",
                    json!({"known": {"property": p, "entry": entry, "detail": detail,
                        "suite": cur.0, "seed": cur.1, "index": cur.2}})
                );
            }
        }
    });
}

pub fn flush() {
    with(|r| {
        let mut out = serde_json::Map::new();
        for (k, s) in &r.stats {
            out.insert(
                k.clone(),
                json!({"cases": s.cases, "distinct_nontrivial": s.distinct.len(), "rule": s.rule, "samples": s.samples}),
            );
        }
        println!("{}", json!({"stats": out, "findings": r.findings, "trace_hash": format!("{:016x}", r.trace_hash)}));
    });
    let _ = BTreeSet::<u8>::new();
}

/// Run a case, turning a panic into a finding.
pub fn guarded<R>(props: &[&str], clause: &str, f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            finding(props, clause, format!("panic: {} ({})", msg, loc));
            None
        }
    }
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = loc;
    }));
}

use std::sync::atomic::{AtomicU64, Ordering};
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

/// A case that makes no progress for `secs` seconds is reported as a hang; the process ends.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last.0 {
                last = (now, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() >= secs {
                finding(HANG_PROPS, "hang", format!("no progress for {} s", secs));
                flush();
                std::process::exit(0);
            }
        }
    });
}
pub const HANG_PROPS: &[&str] = &["C15", "C04", "C05", "C06", "C03"];
