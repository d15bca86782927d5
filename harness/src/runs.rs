//! Whole runs of async_launch::launch under a scripted objective function: the harness decides
//! when and in which order evaluations complete, what they return, and when the run is told
//! to terminate; it polls the run by hand, so the schedule is exactly the scripted one.
use crate::gen::*;
use crate::oracle::*;
use crate::report::*;
use async_trait::async_trait;
use cambrian::async_launch;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfig, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::spec::Spec;
use cambrian::value::Value;
use cambrian::verif::DetailedReportItem;
use futures::channel::{mpsc, oneshot};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Val(f64),
    Reject,
    Fail,
    NonFinite(f64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OnAbort {
    Reject,
    Value,
    Fail,
    Ignore,
}

struct Started {
    id: usize,
    seed: u64,
    value: serde_json::Value,
    done: Option<oneshot::Sender<Outcome>>,
    aborted: bool,
    ended: bool,
}

#[derive(Default)]
struct Shared {
    started: Vec<Started>,
    on_abort: HashMap<u64, OnAbort>,
    default_on_abort: Option<OnAbort>,
    abort_vals: HashMap<u64, f64>,
}

struct Obj(Arc<Mutex<Shared>>);

struct EndGuard(Arc<Mutex<Shared>>, usize);
impl Drop for EndGuard {
    fn drop(&mut self) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).started[self.1].ended = true;
    }
}

fn fail_err(seed: u64) -> Error {
    Error::Io(std::io::Error::new(std::io::ErrorKind::Other, format!("evaluation with seed {} failed", seed)))
}

fn to_result(o: Outcome, seed: u64) -> Result<Option<f64>, Error> {
    match o {
        Outcome::Val(x) => Ok(Some(x)),
        Outcome::NonFinite(x) => Ok(Some(x)),
        Outcome::Reject => Ok(None),
        Outcome::Fail => Err(fail_err(seed)),
    }
}

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        value: serde_json::Value,
        mut abort: async_broadcast::Receiver<()>,
        seed: u64,
        individual_id: usize,
    ) -> Result<Option<f64>, Error> {
        let (tx, rx) = oneshot::channel();
        let (idx, on_abort) = {
            let mut g = self.0.lock().unwrap();
            g.started.push(Started { id: individual_id, seed, value, done: Some(tx), aborted: false, ended: false });
            let oa = g.on_abort.get(&seed).copied().or(g.default_on_abort).unwrap_or(OnAbort::Reject);
            (g.started.len() - 1, oa)
        };
        let _guard = EndGuard(self.0.clone(), idx);
        let aborted = {
            let sh = self.0.clone();
            async move {
                let _ = abort.recv().await;
                sh.lock().unwrap().started[idx].aborted = true;
                if on_abort == OnAbort::Ignore {
                    futures::future::pending::<()>().await;
                }
            }
        };
        futures::pin_mut!(aborted);
        match futures::future::select(rx, aborted).await {
            futures::future::Either::Left((Ok(o), _)) => to_result(o, seed),
            futures::future::Either::Left((Err(_), _)) => Ok(None),
            futures::future::Either::Right(_) => match on_abort {
                OnAbort::Value => {
                    let v = self.0.lock().unwrap().abort_vals.get(&seed).copied().unwrap_or(1.5);
                    Ok(Some(v))
                }
                OnAbort::Fail => Err(fail_err(seed)),
                _ => Ok(None),
            },
        }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Debug, Clone)]
pub struct Scn {
    pub spec: Spec,
    pub guess: Option<Value>,
    pub nc: usize,
    pub ss: usize,
    pub n: Option<usize>,
    pub target: Option<f64>,
    pub terminate_at: Option<usize>,
    pub p_fail: f64,
    pub p_reject: f64,
    pub p_nonfinite: f64,
    pub p_batch: f64,
    pub vals: u8,
    pub ignore_abort: f64,
    pub fail_on_abort: f64,
    pub value_on_abort: f64,
    pub max_steps: usize,
    pub script: u64,
    /// the reader of the detailed report is slow: the run is suspended while it sends a record
    pub slow: bool,
}

pub fn gen_scn(r: &mut StdRng) -> Scn {
    let style = if r.gen_bool(0.4) { Style::Wild } else { Style::Tame };
    let depth = r.gen_range(0..=2);
    let spec = gen_spec(r, depth, style);
    let guess = if r.gen_bool(0.4) { Some(gen_val(r, &spec)) } else { None };
    let n = match r.gen_range(0..10) {
        0 => Some(0),
        1 => Some(1),
        2 => Some(r.gen_range(2..5)),
        3 => None,
        4 => Some(r.gen_range(100..180)),
        _ => Some(r.gen_range(5..70)),
    };
    let ss = *[1, 1, 1, 1, 2, 3, 4].choose(r).unwrap();
    Scn {
        spec,
        guess,
        nc: *[1, 1, 2, 2, 3, 4, 7].choose(r).unwrap(),
        ss,
        n,
        target: match r.gen_range(0..6) {
            0 => Some(-5.0),
            1 => Some(0.0),
            2 => Some(-1e6),
            _ => None,
        },
        terminate_at: if r.gen_bool(0.35) { Some(r.gen_range(0..60)) } else { None },
        p_fail: *[0.0, 0.0, 0.0, 0.01, 0.1].choose(r).unwrap(),
        p_reject: *[0.0, 0.1, 0.3, 1.0, 0.1].choose(r).unwrap(),
        p_nonfinite: *[0.0, 0.0, 0.0, 0.0, 0.02].choose(r).unwrap(),
        p_batch: *[0.0, 0.0, 0.3].choose(r).unwrap(),
        vals: r.gen_range(0..6),
        ignore_abort: *[0.0, 0.0, 0.5].choose(r).unwrap(),
        fail_on_abort: *[0.0, 0.0, 0.3].choose(r).unwrap(),
        value_on_abort: *[0.0, 0.5].choose(r).unwrap(),
        max_steps: 240,
        script: r.gen(),
        slow: r.gen_bool(0.2),
    }
}

fn val(r: &mut StdRng, kind: u8, step: usize) -> f64 {
    match kind {
        0 => r.gen_range(-10.0..100.0),
        1 => *[0.0, -0.0, 1.0, 1.0, 2.0].choose(r).unwrap(),
        2 => pick_obj(r),
        3 => 1000.0 - step as f64,  // always improving
        4 => step as f64,           // always worsening
        _ => r.gen_range(0..4) as f64 * 0.5 - 0.5,
    }
}

fn pick_obj(r: &mut StdRng) -> f64 {
    loop {
        let x = pick_f64(r);
        if x.abs() <= 1e300 {
            return x;
        }
    }
}

#[derive(Clone, Debug)]
struct Done {
    seed: u64,
    outcome: Outcome,
}

pub struct Outcomes {
    pub trace: String,
}

enum Stop {
    Terminate,
    Failure,
    Target,
}

pub fn drive(sc: &Scn) -> Option<Outcomes> {
    let mut r: StdRng = rand::SeedableRng::seed_from_u64(sc.script);
    let all = &["C15", "C01", "C02", "C03", "C04", "C05", "C06", "C08", "C14"];
    let shared = Arc::new(Mutex::new(Shared::default()));
    let (mut cmd_tx, cmd_rx) = mpsc::channel::<Command>(16);
    let (item_tx, mut item_rx) = mpsc::channel::<DetailedReportItem>(if sc.slow { 0 } else { 4096 });
    let guess_json = match &sc.guess {
        Some(g) => {
            // a value with no JSON form of its own (present optional encoding as null) is sent as absence
            Some(g.to_json())
        }
        None => None,
    };
    let cfg = AlgoConfig { individual_sample_size: sc.ss, num_concurrent: sc.nc };
    let fut = async_launch::launch(
        sc.spec.clone(),
        Obj(shared.clone()),
        cfg,
        cmd_rx,
        item_tx,
        sc.n,
        sc.target,
        guess_json.clone(),
    );
    let mut fut: Pin<Box<dyn Future<Output = Result<FinalReport, Error>>>> = Box::pin(fut);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker: Waker = flag.clone().into();
    let mut result: Option<Result<FinalReport, Error>> = None;

    // poll until nothing is left to do
    let poll_all = |fut: &mut Pin<Box<dyn Future<Output = Result<FinalReport, Error>>>>, result: &mut Option<Result<FinalReport, Error>>| -> bool {
        let mut rounds = 0;
        while result.is_none() && flag.0.swap(false, Ordering::SeqCst) {
            tick();
            rounds += 1;
            if rounds > 100_000 {
                finding(HANG_PROPS, "busy loop", "the run keeps waking itself without making progress".into());
                return false;
            }
            let mut cx = Context::from_waker(&waker);
            let step = guarded(all, "the run panics", || fut.as_mut().poll(&mut cx));
            match step {
                None => return false,
                Some(Poll::Ready(x)) => *result = Some(x),
                Some(Poll::Pending) => (),
            }
        }
        true
    };
    // the same, with the records of the detailed report being read
    let mut items: Vec<DetailedReportItem> = Vec::new();
    let quiesce = |fut: &mut Pin<Box<dyn Future<Output = Result<FinalReport, Error>>>>, result: &mut Option<Result<FinalReport, Error>>, items: &mut Vec<DetailedReportItem>, rx: &mut mpsc::Receiver<DetailedReportItem>| -> bool {
        loop {
            if !poll_all(fut, result) {
                return false;
            }
            let n = items.len();
            while let Ok(Some(i)) = rx.try_next() {
                items.push(i);
            }
            if items.len() == n || result.is_some() {
                return true;
            }
        }
    };

    if !quiesce(&mut fut, &mut result, &mut items, &mut item_rx) {
        return None;
    }

    let mut done: Vec<Done> = Vec::new(); // outcomes handed to evaluations, in order
    let mut outcome_of: HashMap<u64, Outcome> = HashMap::new();
    let mut stop: Option<(Stop, usize)> = None; // reason, number of starts at that time
    let mut first_failure: Option<(u64, Outcome)> = None;
    let mut terminated = false;
    let mut fail_with_terminate = false;
    let mut steps = 0usize;

    let limit = sc.n.unwrap_or(usize::MAX);
    loop {
        // decide how newly started evaluations react to an abort (fixed per seed by the script)
        // -- done lazily: default is read at start, so draw it before the next polls
        let (live, nstarted) = {
            let g = shared.lock().unwrap();
            let live: Vec<usize> = g.started.iter().enumerate().filter(|(_, s)| !s.ended && s.done.is_some()).map(|(i, _)| i).collect();
            (live, g.started.len())
        };
        while let Ok(Some(i)) = item_rx.try_next() {
            items.push(i);
        }
        // --- invariants at a quiescent point
        if nstarted > limit {
            finding(&["C03"], "started <= N", format!("{} evaluations started with N = {}", nstarted, limit));
        }
        if live.len() > sc.nc {
            finding(&["C05"], "in flight <= num_concurrent", format!("{} in flight with num_concurrent = {}", live.len(), sc.nc));
        }
        {
            let g = shared.lock().unwrap();
            let ids: Vec<usize> = live.iter().map(|i| g.started[*i].id).collect();
            if ids.iter().collect::<BTreeSet<_>>().len() != ids.len() {
                finding(&["C05", "C08"], "one evaluation per individual at a time", format!("in flight ids {:?}", ids));
            }
        }
        if let Some((why, at)) = &stop {
            if nstarted > *at {
                match why {
                    Stop::Terminate => finding(&["C04"], "no start after a terminate request", format!("{} started when it was delivered, {} later", at, nstarted)),
                    Stop::Target => finding(&["C04"], "no start after the target was reached", format!("{} then {}", at, nstarted)),
                    Stop::Failure => finding(&["C06"], "no start after a failure", format!("{} then {}", at, nstarted)),
                }
            }
        }
        if result.is_some() {
            break;
        }
        if stop.is_none() {
            let remaining = limit - (nstarted - live.len()).min(limit);
            let want = sc.nc.min(remaining);
            if live.len() != want && want > 0 {
                finding(&["C05"], "work conservation", format!("{} in flight, expected min(num_concurrent {}, remaining {})", live.len(), sc.nc, remaining));
            }
            if remaining == 0 && live.is_empty() {
                finding(&["C03", "C15"], "run ends when the budget is used up", format!("{} of {} evaluations completed but the run has not returned", nstarted, limit));
                return None;
            }
            if live.is_empty() && want > 0 {
                return None;
            }
        } else {
            if live.is_empty() {
                finding(
                    match stop.as_ref().unwrap().0 {
                        Stop::Failure => &["C06", "C15"],
                        _ => &["C04", "C15"],
                    },
                    "returns once the in-flight evaluations have ended",
                    "nothing is in flight, yet the run has not returned".into(),
                );
                return None;
            }
            if matches!(stop.as_ref().unwrap().0, Stop::Target) {
                finding(&["C04"], "target-terminated run returns at once", format!("{} in flight and not returned", live.len()));
                return None;
            }
            let g = shared.lock().unwrap();
            for i in &live {
                if !g.started[*i].aborted {
                    let p: &[&str] = if matches!(stop.as_ref().unwrap().0, Stop::Failure) { &["C06"] } else { &["C04"] };
                    finding(p, "in-flight evaluations are told to abort", format!("evaluation with seed {} was not", g.started[*i].seed));
                    drop(g);
                    return None;
                }
            }
        }
        steps += 1;
        // --- choose the next event
        let now_terminate = !terminated && (sc.terminate_at == Some(done.len()) || steps > sc.max_steps);
        // deliver the request while the run is suspended sending a record
        let mid = now_terminate && sc.slow && stop.is_none() && r.gen_bool(0.8);
        let batch = if !mid && r.gen_bool(sc.p_batch) { r.gen_range(1..=live.len()) } else { 1 };
        let mut completed: Vec<Done> = Vec::new();
        if now_terminate && !mid {
            terminated = true;
            let _ = cmd_tx.try_send(Command::Terminate);
            if stop.is_none() {
                stop = Some((Stop::Terminate, nstarted));
            }
        }
        if !now_terminate || mid || r.gen_bool(0.3) {
            let mut idxs = live.clone();
            idxs.shuffle(&mut r);
            for i in idxs.into_iter().take(batch) {
                let (seed, tx) = {
                    let mut g = shared.lock().unwrap();
                    (g.started[i].seed, g.started[i].done.take().unwrap())
                };
                let o = if !mid && r.gen_bool(sc.p_fail) {
                    Outcome::Fail
                } else if !mid && r.gen_bool(sc.p_nonfinite) {
                    Outcome::NonFinite(*[f64::NAN, f64::INFINITY, f64::NEG_INFINITY].choose(&mut r).unwrap())
                } else if r.gen_bool(sc.p_reject) {
                    Outcome::Reject
                } else {
                    Outcome::Val(val(&mut r, sc.vals, done.len() + completed.len()))
                };
                let _ = tx.send(o.clone());
                completed.push(Done { seed, outcome: o });
            }
        }
        // reactions to an abort for the evaluations about to start
        {
            let mut g = shared.lock().unwrap();
            let k = if r.gen_bool(sc.ignore_abort) {
                OnAbort::Ignore
            } else if r.gen_bool(sc.fail_on_abort) {
                OnAbort::Fail
            } else if r.gen_bool(sc.value_on_abort) {
                OnAbort::Value
            } else {
                OnAbort::Reject
            };
            g.default_on_abort = Some(k);
        }
        if now_terminate {
            fail_with_terminate = completed.iter().any(|d| matches!(d.outcome, Outcome::Fail | Outcome::NonFinite(_)));
        }
        for d in &completed {
            outcome_of.insert(d.seed, d.outcome.clone());
        }
        // stopping events among this batch (only unambiguous when a single one completes)
        let single = completed.len() == 1 && !now_terminate;
        let before_items = items.len();
        done.extend(completed.iter().cloned());
        let nstart_before = nstarted;
        if mid {
            if !poll_all(&mut fut, &mut result) {
                return None;
            }
            terminated = true;
            let _ = cmd_tx.try_send(Command::Terminate);
            flag.0.store(true, Ordering::SeqCst);
            stop = Some((Stop::Terminate, shared.lock().unwrap().started.len()));
            if !poll_all(&mut fut, &mut result) {
                return None;
            }
        }
        if !quiesce(&mut fut, &mut result, &mut items, &mut item_rx) {
            return None;
        }
        if stop.is_none() {
            if let Some(f) = completed.iter().find(|d| matches!(d.outcome, Outcome::Fail | Outcome::NonFinite(_))) {
                if single {
                    first_failure = Some((f.seed, f.outcome.clone()));
                    stop = Some((Stop::Failure, nstart_before));
                } else {
                    // several completed at once: starts may precede the failure
                    first_failure = Some((u64::MAX, Outcome::Fail));
                    stop = Some((Stop::Failure, shared.lock().unwrap().started.len()));
                }
            } else if let Some(t) = sc.target {
                if sc.ss == 1 && items[before_items..].iter().any(|i| i.obj_func_val.map_or(false, |v| v <= t)) {
                    if single {
                        stop = Some((Stop::Target, nstart_before));
                    } else {
                        stop = Some((Stop::Target, shared.lock().unwrap().started.len()));
                    }
                }
                if sc.ss > 1 && result.is_some() && items.len() < limit {
                    stop = Some((Stop::Target, shared.lock().unwrap().started.len()));
                }
            }
        }
        // which evaluations were aborted into an outcome of their own?
        {
            let g = shared.lock().unwrap();
            for s in g.started.iter() {
                if s.ended && s.aborted && !outcome_of.contains_key(&s.seed) {
                    outcome_of.insert(s.seed, Outcome::Reject);
                }
            }
        }
    }

    let res = result.unwrap();
    drop(fut);
    let g = shared.lock().unwrap();
    let starts: Vec<(usize, u64, String)> = g.started.iter().map(|s| (s.id, s.seed, s.value.to_string())).collect();

    // --- C08
    let seeds: BTreeSet<u64> = starts.iter().map(|s| s.1).collect();
    if seeds.len() != starts.len() {
        finding(&["C08"], "distinct seeds", format!("seeds {:?}", starts.iter().map(|s| s.1).collect::<Vec<_>>()));
    }
    let mut by_id: BTreeMap<usize, Vec<&(usize, u64, String)>> = BTreeMap::new();
    for s in &starts {
        by_id.entry(s.0).or_default().push(s);
    }
    for (id, v) in &by_id {
        if v.len() > sc.ss {
            finding(&["C08"], "sampling bound", format!("individual {} evaluated {} times, sample size {}", id, v.len(), sc.ss));
        }
        if v.iter().any(|s| s.2 != v[0].2) {
            finding(&["C08"], "stable value per individual", format!("individual {}: {:?}", id, v));
        }
    }
    if sc.ss == 1 && by_id.len() != starts.len() {
        finding(&["C08"], "distinct ids", format!("{:?}", starts.iter().map(|s| s.0).collect::<Vec<_>>()));
    }
    if let Some(first) = starts.first() {
        let want = match &guess_json {
            Some(g) => g.to_string(),
            None => Value(initial(&sc.spec.0)).to_json().to_string(),
        };
        if first.2 != want {
            finding(&["C08", "C11"], "first individual is the initial value", format!("first {}\nexpected {}", first.2, want));
        }
    }
    // --- C01
    for s in g.started.iter() {
        if let Err(e) = conforms_json(&sc.spec.0, &s.value) {
            finding(&["C01"], "evaluated parameter set conforms", format!("{}: {}", e, s.value));
            break;
        }
    }
    // --- C14: items
    let started_by_seed: HashMap<u64, &Started> = g.started.iter().map(|s| (s.seed, s)).collect();
    let mut item_seeds = BTreeSet::new();
    for it in &items {
        if !item_seeds.insert(it.seed) {
            finding(&["C14"], "one record per processed evaluation", format!("two records with seed {}", it.seed));
        }
        match started_by_seed.get(&it.seed) {
            None => finding(&["C14"], "record of a started evaluation", format!("seed {}", it.seed)),
            Some(s) => {
                if s.id != it.individual_id || s.value.to_string() != it.input_val.to_string() {
                    finding(&["C14"], "record carries id and parameter set", format!("evaluated {} {}, recorded {} {}", s.id, s.value, it.individual_id, it.input_val));
                }
                let expect = match outcome_of.get(&it.seed) {
                    Some(Outcome::Val(v)) => Some(Some(*v)),
                    Some(Outcome::Reject) if s.aborted => None,
                    Some(Outcome::Reject) => Some(None),
                    _ => None,
                };
                if let Some(e) = expect {
                    if e.map(f64::to_bits) != it.obj_func_val.map(f64::to_bits) {
                        finding(&["C14", "C02"], "record carries the result", format!("returned {:?}, recorded {:?}", e, it.obj_func_val));
                    }
                }
            }
        }
        if let Some(m) = &it.meta_params_used {
            let ps = [m.crossover_params.crossover_prob, m.crossover_params.selection_pressure, m.mutation_params.mutation_prob];
            if ps.iter().any(|p| !(0.0..=1.0).contains(p)) || !(m.mutation_params.mutation_scale > 0.0 && m.mutation_params.mutation_scale.is_finite()) {
                finding(&["C14", "C15"], "adaptive parameters in range", format!("{:?}", m));
            }
        }
    }
    let acc = items.iter().filter(|i| i.obj_func_val.is_some()).count();
    let rej = items.len() - acc;
    let trace;
    match &res {
        Ok(rep) => {
            trace = format!("ok {:?} {} {} {}", rep.best_seen.obj_func_val, rep.best_seen.value, rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected);
            if rep.num_obj_func_eval_completed != acc || rep.num_obj_func_eval_rejected != rej {
                finding(&["C14"], "counts", format!("report {} / {}, processed {} / {}", rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected, acc, rej));
            }
            if stop.is_none() {
                if starts.len() != limit || rep.num_obj_func_eval_completed + rep.num_obj_func_eval_rejected != limit {
                    finding(&["C03"], "budget used exactly", format!("N {}, started {}, counts {} + {}", limit, starts.len(), rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected));
                }
            }
            if let Err(e) = conforms_json(&sc.spec.0, &rep.best_seen.value) {
                finding(&["C01"], "best-seen conforms", format!("{}: {}", e, rep.best_seen.value));
            }
            // several completions at once are processed in an order of the executor's choosing: a result at or
            // below the target may then have ended the run before the failure was observed
            let target_first = matches!(first_failure, Some((u64::MAX, _))) && sc.target.map_or(false, |t| rep.best_seen.obj_func_val <= t);
            if first_failure.is_some() && !target_first {
                finding(&["C06"], "no success report after a failure", trace.clone());
            }
            if let (Some((Stop::Target, _)), Some(t)) = (&stop, sc.target) {
                if rep.best_seen.obj_func_val > t {
                    finding(&["C04"], "target-terminated run reports <= target", format!("{} > {}", rep.best_seen.obj_func_val, t));
                }
            }
            // C02
            let best = rep.best_seen.obj_func_val;
            let btxt = rep.best_seen.value.to_string();
            if sc.ss == 1 {
                let min = items.iter().filter_map(|i| i.obj_func_val).fold(f64::INFINITY, f64::min);
                if best != min {
                    finding(&["C02"], "best-seen is the minimum", format!("reported {}, minimum of accepted {}", best, min));
                }
                if !items.iter().any(|i| i.obj_func_val == Some(best) && i.input_val.to_string() == btxt) {
                    finding(&["C02"], "best-seen was evaluated to this value", format!("{} {}", best, btxt));
                }
            } else {
                let mut vals: BTreeMap<usize, Vec<f64>> = BTreeMap::new();
                for i in &items {
                    if let Some(v) = i.obj_func_val {
                        vals.entry(i.individual_id).or_default().push(v);
                    }
                }
                let ok = by_id.iter().any(|(id, v)| {
                    v[0].2 == btxt
                        && vals.get(id).map_or(false, |x| {
                            x.len() == sc.ss && {
                                let mean = x.iter().sum::<f64>() / sc.ss as f64;
                                let mag = x.iter().map(|v| v.abs()).fold(0.0, f64::max);
                                (mean - best).abs() <= 1e-9 * mag + f64::MIN_POSITIVE
                            }
                        })
                });
                if !ok {
                    finding(&["C02"], "best-seen is the mean of exactly sample-size results of one individual", format!("{} {}", best, btxt));
                }
            }
        }
        Err(e) => {
            trace = format!("err {:?}", e);
            match e {
                Error::NoIndividuals => {
                    if sc.ss == 1 && acc > 0 {
                        finding(&["C02", "C04"], "a run with an accepted evaluation has a best-seen", format!("{} accepted", acc));
                    }
                    if stop.is_none() && starts.len() != limit {
                        finding(&["C03"], "budget used exactly", format!("N {}, started {}", limit, starts.len()));
                    }
                    if first_failure.is_some() {
                        finding(&["C06"], "the first failure is the error", trace.clone());
                    }
                }
                e => {
                    let txt = format!("{}", e);
                    match &first_failure {
                        Some((u64::MAX, _)) => (),
                        Some((seed, Outcome::Fail)) => {
                            if txt != format!("{}", fail_err(*seed)) {
                                finding(&["C06"], "the first failure is the error", format!("first failure: seed {}, reported: {}", seed, txt));
                            }
                        }
                        Some((_, _)) => {
                            if !matches!(e, Error::ObjFuncValMustBeFinite) {
                                finding(&["C06"], "non-finite result is the error", txt);
                            }
                        }
                        None => {
                            if !terminated {
                                finding(&["C15", "C11", "C06"], "no error without a failure", txt);
                            } else if !fail_with_terminate {
                                // whatever failed, failed after the terminate request
                                finding(&["C04"], "a terminated run yields its best result", txt);
                            }
                        }
                    }
                }
            }
        }
    }
    let tr = format!("{:?}|{}", starts, trace);
    Some(Outcomes { trace: tr })
}

/// evaluations that complete without ever suspending
struct Imm {
    calls: Arc<Mutex<Vec<(usize, u64)>>>,
    outcomes: Vec<Outcome>,
    terminate: Option<usize>,
    tx: Mutex<mpsc::Sender<Command>>,
}

#[async_trait]
impl AsyncObjectiveFunction for Imm {
    async fn evaluate(&self, _value: serde_json::Value, _abort: async_broadcast::Receiver<()>, seed: u64, individual_id: usize) -> Result<Option<f64>, Error> {
        let n = {
            let mut g = self.calls.lock().unwrap();
            g.push((individual_id, seed));
            g.len() - 1
        };
        if Some(n) == self.terminate {
            let _ = self.tx.lock().unwrap().try_send(Command::Terminate);
        }
        if n > 20_000 {
            return Err(fail_err(u64::MAX));
        }
        to_result(self.outcomes[n % self.outcomes.len()].clone(), seed)
    }
}

pub fn immediate(r: &mut StdRng) {
    let nc = *[1, 1, 2, 3, 5].choose(r).unwrap();
    let n: Option<usize> = if r.gen_bool(0.7) { Some(r.gen_range(0..60)) } else { None };
    let k = r.gen_range(0..40);
    let (terminate, fail) = match r.gen_range(0..3) {
        0 if n.is_some() => (None, None),
        1 => (None, Some(k)),
        _ => (Some(k), None),
    };
    let p_rej = *[0.0, 0.3, 1.0].choose(r).unwrap();
    let mut outcomes: Vec<Outcome> = (0..64).map(|i| if r.gen_bool(p_rej) { Outcome::Reject } else { Outcome::Val(val(r, 5, i)) }).collect();
    if let Some(f) = fail {
        outcomes[f] = if r.gen_bool(0.5) { Outcome::Fail } else { Outcome::NonFinite(f64::NAN) };
    }
    describe(format!("evaluations that never suspend: num_concurrent {} max_evals {:?} terminate in call {:?} failure in call {:?} outcomes {:?}", nc, n, terminate, fail, outcomes));
    let spec = gen_spec(r, 1, Style::Tame);
    let (tx, rx) = mpsc::channel(16);
    let (itx, mut irx) = mpsc::channel::<DetailedReportItem>(100_000);
    let calls = Arc::new(Mutex::new(vec![]));
    let obj = Imm { calls: calls.clone(), outcomes: outcomes.clone(), terminate, tx: Mutex::new(tx) };
    let fut = async_launch::launch(spec, obj, AlgoConfig { individual_sample_size: 1, num_concurrent: nc }, rx, itx, n, None, None);
    let res = match guarded(&["C15"], "the run panics", || futures::executor::block_on(fut)) {
        Some(x) => x,
        None => return,
    };
    let calls = calls.lock().unwrap();
    let mut items = vec![];
    while let Ok(Some(i)) = irx.try_next() {
        items.push(i);
    }
    let lim = n.unwrap_or(usize::MAX);
    let stop_at = terminate.or(fail).map_or(lim, |x| (x + 1).min(lim));
    let p: &[&str] = if terminate.is_some() { &["C04"] } else if fail.is_some() { &["C06"] } else { &["C03"] };
    if calls.len() > lim {
        finding(&["C03"], "started <= N", format!("{} evaluations started with N = {}", calls.len(), lim));
    }
    if calls.len() != stop_at {
        finding(p, "evaluations started", format!("{} evaluations started, expected {}", calls.len(), stop_at));
        return;
    }
    let acc: Vec<f64> = (0..stop_at).filter_map(|i| if let Outcome::Val(v) = outcomes[i % 64] { Some(v) } else { None }).collect();
    let failed = fail.map_or(false, |f| f < lim);
    match res {
        Ok(rep) => {
            if failed {
                finding(&["C06"], "no success report after a failure", format!("{:?}", rep.best_seen.obj_func_val));
            }
            if rep.num_obj_func_eval_completed != acc.len() || rep.num_obj_func_eval_rejected != stop_at - acc.len() {
                finding(&["C14", "C03"], "counts", format!("report {} / {}, evaluated {} / {}", rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected, acc.len(), stop_at - acc.len()));
            }
            if rep.best_seen.obj_func_val != acc.iter().copied().fold(f64::INFINITY, f64::min) {
                finding(&["C02"], "best-seen is the minimum", format!("{} of {:?}", rep.best_seen.obj_func_val, acc));
            }
        }
        Err(Error::NoIndividuals) if !failed => {
            if !acc.is_empty() {
                finding(&["C02", "C04"], "a run with an accepted evaluation has a best-seen", format!("{} accepted", acc.len()));
            }
        }
        Err(e) => {
            if !failed {
                finding(&["C15", "C04", "C06"], "no error without a failure", format!("{}", e));
            } else {
                let want = match outcomes[fail.unwrap()] {
                    Outcome::Fail => format!("{}", fail_err(calls[fail.unwrap()].1)),
                    _ => format!("{}", Error::ObjFuncValMustBeFinite),
                };
                if format!("{}", e) != want {
                    finding(&["C06"], "the first failure is the error", format!("{} instead of {}", e, want));
                }
            }
        }
    }
    if !failed && items.len() != stop_at {
        finding(&["C14"], "one record per processed evaluation", format!("{} records, {} evaluations", items.len(), stop_at));
    }
}

pub fn run_case(seed: u64, index: u64) {
    begin("runs", seed, index);
    tick();
    let mut r = rng_for("runs", seed, index);
    if index % 16 == 5 {
        immediate(&mut r);
        case("runs", None, String::new);
        return;
    }
    let sc = gen_scn(&mut r);
    describe(format!("{:#?}\nspec:\n{}", ScnBrief(&sc), spec_yaml(&sc.spec)));
    let a = drive(&sc);
    if let Some(a) = &a {
        if index % 4 == 0 {
            if let Some(b) = drive(&sc) {
                if a.trace != b.trace {
                    finding(&["C09"], "two runs in one process", diff(&a.trace, &b.trace));
                }
            }
        }
        let h = hash_str(&a.trace);
        mix_trace(h);
        case("runs", Some(h), || format!("{:?}", ScnBrief(&sc)));
    } else {
        case("runs", None, String::new);
    }
}

pub fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.bytes().skip(n.saturating_sub(60)).take(200).map(|b| b as char).collect::<String>();
    format!("traces differ at byte {}:\n  {}\n  {}", n, cut(a), cut(b))
}

struct ScnBrief<'a>(&'a Scn);
impl std::fmt::Debug for ScnBrief<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = self.0;
        write!(
            f,
            "num_concurrent {} sample_size {} max_evals {:?} target {:?} terminate_at {:?} p_fail {} p_reject {} p_nonfinite {} p_batch {} values {} ignore_abort {} slow {} guess {}",
            s.nc, s.ss, s.n, s.target, s.terminate_at, s.p_fail, s.p_reject, s.p_nonfinite, s.p_batch, s.vals, s.ignore_abort, s.slow,
            s.guess.as_ref().map(|g| g.to_json().to_string()).unwrap_or_default()
        )
    }
}
