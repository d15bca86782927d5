//! The launcher: `sync_launch::launch` with in-process objective functions, report files and criteria.
use crate::report::*;
use cambrian::error::Error;
use cambrian::meta::{AlgoConfig, ObjectiveFunction};
use cambrian::spec_util::from_yaml_str;
use cambrian::sync_launch::{launch, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion::*;
use rand::rngs::StdRng;
use rand::Rng;
use serde_json::Value as J;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const SPECS: &[&str] = &[
    "type: real\ninit: 1\nscale: 1\n",
    "type: int\ninit: 3\nmin: 0\nmax: 9\nscale: 2\n",
    "a:\n  type: real\n  init: 0.5\n  scale: 1\nb:\n  type: bool\n  init: true\nc:\n  type: enum\n  init: x\n  values: [x, y, z]\n",
    "type: anon map\ninitSize: 2\nmaxSize: 5\nvalueType:\n  type: bool\n  init: false\n",
    "type: optional\ninitPresent: true\nvalueType:\n  type: array\n  size: 3\n  valueType:\n    type: int\n    init: 1\n    scale: 1\n",
];

#[derive(Default)]
struct St {
    calls: Vec<(J, Option<f64>, Instant)>,
    cur: usize,
    max: usize,
}
struct Shared {
    st: Mutex<St>,
    cv: Condvar,
}
struct F<G>(Arc<Shared>, G);
impl<G: Fn(usize, &Shared) -> Option<f64> + Send + Sync + 'static> ObjectiveFunction for F<G> {
    fn evaluate(&self, v: J) -> Option<f64> {
        tick();
        let k = {
            let mut s = self.0.st.lock().unwrap();
            s.cur += 1;
            s.max = s.max.max(s.cur);
            s.calls.push((v, Some(f64::NAN), Instant::now()));
            self.0.cv.notify_all();
            s.calls.len() - 1
        };
        let r = (self.1)(k, &self.0);
        let mut s = self.0.st.lock().unwrap();
        s.calls[k].1 = r;
        s.cur -= 1;
        r
    }
}

fn shared() -> Arc<Shared> {
    Arc::new(Shared { st: Mutex::new(St::default()), cv: Condvar::new() })
}

fn conf(nc: usize, ss: usize) -> AlgoConfig {
    AlgoConfig { individual_sample_size: ss, num_concurrent: nc }
}

/// objective values that sort apart although they are close, tiny or huge
fn pool(r: &mut StdRng) -> Vec<f64> {
    match r.gen_range(0..6) {
        0 => (1..40).map(|k| 1e-17 / k as f64).collect(),
        1 => (0..40).map(|k| 1.0 + f64::EPSILON * (40 - k) as f64).collect(),
        2 => (0..40).map(|k| 1e300 - 1e285 * k as f64).collect(),
        3 => vec![0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300],
        4 => (0..40).map(|k| 1e9 - k as f64 * 1e-3).collect(),
        _ => (0..40).map(|k| -(k as f64) / 3.0).collect(),
    }
}

/// As many evaluations in progress as asked for, at once, and never more.
fn width(r: &mut StdRng, case_no: u64) {
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let nc = match case_no % 4 {
        0 => 2 * cores + 4,
        1 => cores + r.gen_range(1..4),
        2 => r.gen_range(2..6),
        _ => 1,
    };
    let n = if r.gen_bool(0.3) { r.gen_range(1..=nc) } else { nc + r.gen_range(0..10) };
    let want = nc.min(n);
    describe(format!("in-process, num_concurrent {}, budget {}", nc, n));
    let sh = shared();
    let f = F(sh.clone(), move |k: usize, sh: &Shared| {
        if k < want {
            let mut s = sh.st.lock().unwrap();
            let end = Instant::now() + Duration::from_secs(15);
            while s.max < want && Instant::now() < end {
                s = sh.cv.wait_timeout(s, Duration::from_millis(500)).unwrap().0;
                tick();
            }
        }
        Some(k as f64)
    });
    let spec = from_yaml_str(SPECS[0]).unwrap();
    let res = guarded(&["C15"], "launch", || launch(spec, f, conf(nc, 1), [NumObjFuncEval(n)], None, true, None));
    let s = sh.st.lock().unwrap();
    if s.max < want {
        finding(&["C05"], "fewer evaluations in progress than num_concurrent", format!("{} of {}", s.max, want));
    }
    if s.max > nc {
        finding(&["C05"], "more evaluations in progress than num_concurrent", format!("{} of {}", s.max, nc));
    }
    if s.calls.len() != n {
        finding(&["C03"], "budget", format!("{} evaluations, budget {}", s.calls.len(), n));
    }
    match res {
        Some(Ok(rep)) => {
            if rep.num_obj_func_eval_completed + rep.num_obj_func_eval_rejected != n {
                finding(&["C03", "C14"], "counts", format!("{} + {} of {}", rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected, n));
            }
        }
        Some(Err(e)) => finding(&["C02", "C15"], "run fails", format!("{:?}", e)),
        None => (),
    }
    case("launcher", Some(hash_str(&format!("w {} {}", nc, n))), || format!("width {} of {}", want, nc));
}

/// Report files of a whole run.
fn files(r: &mut StdRng, dir: &std::path::Path) {
    let spec_txt = SPECS[r.gen_range(0..SPECS.len())];
    let spec = from_yaml_str(spec_txt).unwrap();
    let (nc, ss, n) = (r.gen_range(1..4), if r.gen_bool(0.2) { 2 } else { 1 }, r.gen_range(1..60));
    let vals = pool(r);
    let rej = if r.gen_bool(0.5) { r.gen_range(2..5) } else { 0 };
    // ascending or descending, so that improvements come one after the other or only once
    let up = r.gen_bool(0.5);
    describe(format!("in-process with files: {:?} num_concurrent {} sample size {} budget {} reject every {} values {:?} ascending {}", spec_txt, nc, ss, n, rej, &vals[..3.min(vals.len())], up));
    let sh = shared();
    let v2 = vals.clone();
    let f = F(sh.clone(), move |k: usize, _: &Shared| {
        if rej > 0 && k % rej == 1 {
            return None;
        }
        let i = k % v2.len();
        Some(v2[if up { v2.len() - 1 - i } else { i }])
    });
    let info = DetailedReportingFileInfo { detailed_report_file_path: dir.join("d.csv"), best_seen_file_path: dir.join("b.json") };
    let res = guarded(&["C15"], "launch", || launch(spec, f, conf(nc, ss), [NumObjFuncEval(n)], None, true, Some(&info)));
    let s = sh.st.lock().unwrap();
    let csv = std::fs::read_to_string(&info.detailed_report_file_path).unwrap_or_default();
    let mut rows: Vec<(String, Option<f64>)> = vec![];
    let mut seeds = std::collections::HashSet::new();
    for l in csv.lines().skip(1) {
        let c: Vec<&str> = l.split(';').collect();
        if c.len() < 10 {
            finding(&["C14"], "a row of the detailed report is not complete", l.to_string());
            return;
        }
        let m = c.len();
        if !seeds.insert(c[m - 2].to_string()) {
            finding(&["C08", "C14"], "a seed is recorded twice", l.to_string());
        }
        for (i, what) in [(3, "crossover probability"), (4, "selection pressure"), (5, "mutation probability")] {
            if !c[i].is_empty() && !c[i].parse::<f64>().map_or(false, |p| (0.0..=1.0).contains(&p)) {
                finding(&["C14"], what, l.to_string());
            }
        }
        if !c[6].is_empty() && !c[6].parse::<f64>().map_or(false, |p| p > 0.0 && p.is_finite()) {
            finding(&["C14"], "mutation scale", l.to_string());
        }
        rows.push((c[7..m - 2].join(";"), if c[m - 1].is_empty() { None } else { c[m - 1].parse().ok() }));
    }
    let key = |(v, o): &(String, Option<f64>)| (v.clone(), o.map(|x| x.to_bits()));
    let mut a: Vec<_> = rows.iter().map(key).collect();
    let mut b: Vec<_> = s.calls.iter().map(|(v, o, _)| key(&(v.to_string(), *o))).collect();
    a.sort();
    b.sort();
    if a != b {
        finding(&["C14"], "records do not match the evaluations", format!("{} records, {} evaluations", a.len(), b.len()));
    }
    let best = s.calls.iter().filter_map(|c| c.1).fold(f64::INFINITY, f64::min);
    match res {
        Some(Ok(rep)) => {
            if (rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected)
                != (s.calls.iter().filter(|c| c.1.is_some()).count(), s.calls.iter().filter(|c| c.1.is_none()).count())
            {
                finding(&["C14"], "counts", format!("{} {}", rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected));
            }
            if ss == 1 {
                if rep.best_seen.obj_func_val != best {
                    finding(&["C02"], "reported value is not the minimum", format!("{} {}", rep.best_seen.obj_func_val, best));
                }
                let file = std::fs::read_to_string(&info.best_seen_file_path).unwrap_or_default();
                if !s.calls.iter().any(|(v, o, _)| *o == Some(best) && v.to_string() == file.trim()) {
                    finding(&["C14"], "best-seen file", format!("holds {:?}, which was not evaluated to the minimum {}", file, best));
                }
            }
        }
        Some(Err(Error::NoIndividuals)) if s.calls.iter().all(|c| c.1.is_none()) || ss > 1 => (),
        Some(Err(e)) => finding(&["C02", "C15"], "run fails", format!("{:?}", e)),
        None => (),
    }
    case("launcher", Some(hash_str(&format!("{} {} {} {:?}", spec_txt, nc, n, a))), || format!("{} records", a.len()));
}

/// Target, time limit, values that are not finite.
fn ends(r: &mut StdRng, case_no: u64) {
    let spec = from_yaml_str(SPECS[r.gen_range(0..SPECS.len())]).unwrap();
    let nc = r.gen_range(1..4);
    let sh = shared();
    match case_no % 3 {
        0 => {
            let at = r.gen_range(0..30);
            describe(format!("in-process, target reached at evaluation {}, num_concurrent {}", at, nc));
            let f = F(sh.clone(), move |k: usize, _: &Shared| Some(if k == at { -1.5 } else { 10.0 + k as f64 }));
            let res = guarded(&["C15"], "launch", || launch(spec, f, conf(nc, 1), [TargetObjFuncVal(-1.0), NumObjFuncEval(500)], None, true, None));
            let n = sh.st.lock().unwrap().calls.len();
            if nc == 1 && n > at + 1 {
                finding(&["C04"], "evaluations started after the target was reached", format!("{} evaluations, target at {}", n, at));
            }
            match res {
                Some(Ok(rep)) if rep.best_seen.obj_func_val == -1.5 => (),
                Some(x) => finding(&["C04"], "target", format!("{:?}", x.map(|x| x.best_seen.obj_func_val))),
                None => (),
            }
        }
        1 => {
            describe(format!("in-process, time limit 120 ms, num_concurrent {}", nc));
            let f = F(sh.clone(), move |k: usize, _: &Shared| {
                std::thread::sleep(Duration::from_millis(4));
                Some(10.0 - k as f64)
            });
            let t = Instant::now();
            let res = guarded(&["C15"], "launch", || launch(spec, f, conf(nc, 1), [TerminateAfter(Duration::from_millis(120)), NumObjFuncEval(5000)], None, true, None));
            let s = sh.st.lock().unwrap();
            if let Some(c) = s.calls.last() {
                if c.2 > t + Duration::from_millis(120 + 3000) {
                    finding(&["C04"], "evaluation started after the time limit", format!("{:?} after the start", c.2 - t));
                }
            }
            match res {
                Some(Ok(_)) | None => (),
                Some(Err(e)) => {
                    if s.calls.len() > nc {
                        finding(&["C04"], "no report after the time limit", format!("{:?}", e));
                    }
                }
            }
        }
        _ => {
            let at = r.gen_range(0..30);
            let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][r.gen_range(0..3)];
            describe(format!("in-process, evaluation {} returns {}, num_concurrent {}", at, bad, nc));
            let f = F(sh.clone(), move |k: usize, _: &Shared| Some(if k == at { bad } else { 1.0 }));
            let res = guarded(&["C15"], "launch", || launch(spec, f, conf(nc, 1), [NumObjFuncEval(400)], None, true, None));
            let n = sh.st.lock().unwrap().calls.len();
            if nc == 1 && n > at + 1 {
                finding(&["C06"], "evaluations started after a failure", format!("{} evaluations, failure at {}", n, at));
            }
            match res {
                Some(Err(Error::ObjFuncValMustBeFinite)) | None => (),
                Some(x) => finding(&["C06"], "the failure is not reported", format!("{:?}", x.map(|x| x.best_seen.obj_func_val))),
            }
        }
    }
    case("launcher", Some(hash_str(&format!("e {} {}", case_no, nc))), || format!("ends {}", case_no % 3));
}

pub fn run_case(seed: u64, index: u64) {
    begin("launcher", seed, index);
    let mut r = crate::gen::rng_for("launcher", seed, index);
    match index % 4 {
        0 => width(&mut r, index / 4),
        1 => ends(&mut r, index / 4),
        _ => {
            let dir = std::env::temp_dir().join(format!("cambrian-launcher-{}-{}-{}", std::process::id(), seed, index));
            std::fs::create_dir_all(&dir).unwrap();
            files(&mut r, &dir);
            std::fs::remove_dir_all(&dir).ok();
        }
    }
}
