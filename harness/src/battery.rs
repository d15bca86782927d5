//! Whole-run suites with in-process evaluation: the optimisation battery (C17) and adversarial
//! long runs (C15, C14).
use crate::gen::*;
use crate::oracle::*;
use crate::report::*;
use async_trait::async_trait;
use cambrian::async_launch;
use cambrian::error::Error;
use cambrian::meta::{AlgoConfig, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::spec::Spec;
use cambrian::spec_util::from_yaml_str;
use cambrian::verif::DetailedReportItem;
use futures::channel::mpsc;
use futures::StreamExt;
use rand::Rng;
use serde_json::Value as J;
use std::sync::Mutex;

struct F<G>(Mutex<G>);
#[async_trait]
impl<G: FnMut(&J, u64, usize) -> Option<f64> + Send> AsyncObjectiveFunction for F<G> {
    async fn evaluate(&self, v: J, _a: async_broadcast::Receiver<()>, seed: u64, id: usize) -> Result<Option<f64>, Error> {
        tick();
        Ok((self.0.lock().unwrap())(&v, seed, id))
    }
}

pub fn run<G: FnMut(&J, u64, usize) -> Option<f64> + Send>(
    spec: &Spec,
    g: G,
    n: usize,
    nc: usize,
    ss: usize,
    guess: Option<J>,
    mut on_item: impl FnMut(DetailedReportItem),
) -> Result<FinalReport, Error> {
    let (_tx, rx) = mpsc::channel(4);
    let (itx, irx) = mpsc::channel(64);
    let l = async_launch::launch(
        spec.clone(),
        F(Mutex::new(g)),
        AlgoConfig { individual_sample_size: ss, num_concurrent: nc },
        rx,
        itx,
        Some(n),
        None,
        guess,
    );
    let drain = irx.for_each(|i| {
        on_item(i);
        futures::future::ready(())
    });
    futures::executor::block_on(futures::future::join(l, drain)).0
}

fn nums(j: &J) -> Vec<f64> {
    match j {
        J::Number(n) => vec![n.as_f64().unwrap()],
        J::Object(o) => o.values().flat_map(nums).collect(),
        J::Array(a) => a.iter().flat_map(nums).collect(),
        _ => vec![],
    }
}

struct Problem {
    name: &'static str,
    spec: String,
    f: fn(&J) -> f64,
    n: usize,
    /// reach this value (known optimum, exactly), or improve on the initial value by this factor
    goal: Goal,
}
enum Goal {
    AtMost(f64),
    Factor(f64),
}

fn sphere(j: &J) -> f64 {
    nums(j).iter().map(|x| (x - 3.0) * (x - 3.0)).sum()
}
fn ellip(j: &J) -> f64 {
    nums(j).iter().enumerate().map(|(i, x)| 10f64.powi(i as i32) * (x + 7.0) * (x + 7.0)).sum()
}
fn big(j: &J) -> f64 {
    nums(j).iter().map(|x| (x / 1e6 - 1.0).powi(2)).sum()
}
fn small(j: &J) -> f64 {
    nums(j).iter().map(|x| (x * 1e4 - 1.0).powi(2)).sum()
}
fn edge(j: &J) -> f64 {
    nums(j).iter().map(|x| (x - 2.0).abs()).sum()
}
fn ints(j: &J) -> f64 {
    nums(j).iter().enumerate().map(|(i, x)| (x - (5 + 3 * i) as f64).abs()).sum()
}
fn onemax(j: &J) -> f64 {
    match j {
        J::Array(a) => a.iter().filter(|b| **b == J::Bool(false)).count() as f64,
        J::Object(o) => o.values().filter(|b| **b == J::Bool(false)).count() as f64,
        _ => 99.0,
    }
}
fn mapsize(j: &J) -> f64 {
    (j.as_object().unwrap().len() as f64 - 12.0).abs()
}
fn choice(j: &J) -> f64 {
    let a = match &j["v"] {
        J::Object(o) => match o.keys().next().unwrap().as_str() {
            "c" => (o["c"].as_f64().unwrap() - 4.0).abs(),
            "a" => 50.0,
            _ => 20.0,
        },
        _ => 99.0,
    };
    let b = match j["e"].as_str().unwrap() {
        "blue" => 0.0,
        _ => 10.0,
    };
    let c = if j["o"].is_null() { 5.0 } else { 0.0 };
    a + b + c
}

fn problems() -> Vec<Problem> {
    let real = |n: usize, init: f64, scale: f64, extra: &str| {
        (0..n).map(|i| format!("x{}: {{type: real, init: {:?}, scale: {:?}{}}}\n", i, init, scale, extra)).collect::<String>()
    };
    let int = |n: usize| (0..n).map(|i| format!("x{}: {{type: int, init: -20, scale: 2.0, min: -100, max: 100}}\n", i)).collect::<String>();
    vec![
        Problem { name: "sphere 1d", spec: real(1, 100.0, 1.0, ""), f: sphere, n: 2000, goal: Goal::Factor(1e4) },
        Problem { name: "sphere 3d", spec: real(3, 100.0, 1.0, ""), f: sphere, n: 3000, goal: Goal::Factor(1e3) },
        Problem { name: "sphere 8d", spec: real(8, 20.0, 1.0, ""), f: sphere, n: 5000, goal: Goal::Factor(50.0) },
        Problem { name: "ellipsoid 4d", spec: real(4, 10.0, 1.0, ", min: -50, max: 50"), f: ellip, n: 5000, goal: Goal::Factor(50.0) },
        Problem { name: "large scale 2d", spec: real(2, 0.0, 1e5, ""), f: big, n: 3000, goal: Goal::Factor(100.0) },
        Problem { name: "small scale 2d", spec: real(2, 1.0, 1.0, ""), f: small, n: 4000, goal: Goal::Factor(100.0) },
        Problem { name: "optimum on a bound", spec: real(3, 80.0, 5.0, ", min: 2, max: 100"), f: edge, n: 2000, goal: Goal::AtMost(1e-9) },
        Problem { name: "integer grid", spec: int(3), f: ints, n: 4000, goal: Goal::AtMost(0.0) },
        Problem { name: "one-max", spec: "type: array\nsize: 20\nvalueType: {type: bool, init: false}\n".into(), f: onemax, n: 3000, goal: Goal::AtMost(0.0) },
        Problem { name: "map size", spec: "type: anon map\ninitSize: 2\nvalueType: {type: bool, init: true}\n".into(), f: mapsize, n: 1500, goal: Goal::AtMost(0.0) },
        Problem {
            name: "map size with bounds",
            spec: "type: anon map\ninitSize: 20\nminSize: 12\nmaxSize: 20\nvalueType: {type: const}\n".into(),
            f: mapsize,
            n: 1500,
            goal: Goal::AtMost(0.0),
        },
        Problem {
            name: "variant, enum, optional",
            spec: "v: {type: variant, init: a, a: {type: const}, b: {type: bool, init: true}, c: {type: int, init: 0, scale: 1}}\ne: {type: enum, init: red, values: [red, green, blue]}\no: {type: optional, initPresent: false, valueType: {type: bool, init: true}}\n".into(),
            f: choice,
            n: 3000,
            goal: Goal::AtMost(0.0),
        },
    ]
}

pub fn battery() {
    for (i, p) in problems().into_iter().enumerate() {
        begin("battery", 0, i as u64);
        tick();
        describe(format!("{}: {}", p.name, p.spec));
        let spec = match from_yaml_str(&p.spec) {
            Ok(s) => s,
            Err(e) => {
                finding(&["C17", "C10"], "battery spec accepted", format!("{}", e));
                continue;
            }
        };
        let first = Mutex::new(None);
        let f = p.f;
        let out = guarded(&["C17", "C15"], "the run panics", || {
            run(
                &spec,
                |j, _, _| {
                    let y = f(j);
                    first.lock().unwrap().get_or_insert(y);
                    Some(y)
                },
                p.n,
                1,
                1,
                None,
                |_| (),
            )
        });
        let Some(out) = out else { continue };
        match out {
            Err(e) => finding(&["C17", "C15"], "battery run ends with a report", format!("{}", e)),
            Ok(rep) => {
                let best = rep.best_seen.obj_func_val;
                let init = first.lock().unwrap().unwrap();
                let ok = match p.goal {
                    Goal::AtMost(x) => best <= x,
                    Goal::Factor(k) => best <= init / k,
                };
                if !ok {
                    finding(&["C17"], "battery goal reached", format!("{}: initial {} best {} after {} evaluations", p.name, init, best, p.n));
                }
                case("battery", Some(hash_str(p.name)), || format!("{}: {} -> {} in {} evaluations", p.name, init, best, p.n));
            }
        }
    }
}

/// Long runs under objective functions built to push the adaptation to its limits.
pub fn adversarial(seed: u64, index: u64, n: usize) {
    begin("adversarial", seed, index);
    tick();
    let mut r = rng_for("adversarial", seed, index);
    let kind = index % 8;
    let spec_txt = match index % 5 {
        0 => "x: {type: real, init: 1.0, scale: 1.0}\ny: {type: real, init: -1.0, scale: 10.0}\n",
        1 => "x: {type: real, init: 0.0, scale: 1e300, min: -1.0}\ny: {type: int, init: 0, scale: 1e300}\n",
        2 => "m: {type: anon map, initSize: 1, valueType: {type: real, init: 1.0, scale: 1.0}}\n",
        3 => "o: {type: optional, initPresent: false, valueType: {type: anon map, initSize: 2, minSize: 1, valueType: {type: int, init: 0, scale: 1}}}\nz: {type: bool, init: true}\n",
        _ => "a: {type: array, size: 3, valueType: {type: variant, init: p, p: {type: real, init: 0, scale: 1e-300, max: 5}, q: {type: anon map, initSize: 0, maxSize: 3, valueType: {type: enum, init: r, values: [r, s]}}}}\n",
    };
    let spec = from_yaml_str(spec_txt).unwrap();
    let ss = *[1usize, 1, 2].get((index % 3) as usize).unwrap();
    describe(format!("objective kind {} spec {} n {}", kind, spec_txt, n));
    let mut step = 0u64;
    let salt: u64 = r.gen();
    let bad = Mutex::new(None);
    let out = guarded(&["C15", "C01", "C14"], "the run panics", || {
        run(
            &spec,
            |j, s, _| {
                step += 1;
                if let Err(e) = conforms_json(&spec.0, j) {
                    bad.lock().unwrap().get_or_insert(format!("{}: {}", e, j));
                }
                let mag = nums(j).iter().map(|x| x.abs()).fold(0.0, f64::max);
                let h = (s ^ salt).wrapping_mul(0x9E3779B97F4A7C15);
                match kind {
                    0 => Some(-mag.max(1e-300).ln()), // reward magnitude
                    1 => Some((mag + 1e-300).ln()),   // reward vanishing steps
                    2 => Some(-(step as f64) * 1e290),
                    3 => Some(1e300 * ((h >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 2.0),
                    4 => if h % 3 == 0 { None } else { Some(0.0 * if h & 8 == 0 { 1.0 } else { -1.0 }) },
                    5 => Some(-(j.to_string().len() as f64).min(400.0)),
                    6 => Some(if step % 2 == 0 { 1e300 } else { -1e300 }),
                    _ => Some(step as f64 * 1e290),
                }
            },
            n,
            1 + (index % 3) as usize,
            ss,
            None,
            |it| {
                if let Some(m) = &it.meta_params_used {
                    let ps = [m.crossover_params.crossover_prob, m.crossover_params.selection_pressure, m.mutation_params.mutation_prob];
                    if ps.iter().any(|p| !(0.0..=1.0).contains(p)) || !(m.mutation_params.mutation_scale > 0.0 && m.mutation_params.mutation_scale.is_finite()) {
                        finding(&["C14", "C15"], "adaptive parameters in range", format!("{:?}", m));
                    }
                }
            },
        )
    });
    if let Some(b) = bad.lock().unwrap().take() {
        finding(&["C01"], "evaluated parameter set conforms", b);
    }
    if let Some(Err(e)) = out {
        if !(ss > 1 && matches!(e, Error::NoIndividuals)) {
            finding(&["C15"], "run ends with a report", format!("{}", e));
        }
    }
    case("adversarial", Some(hash_str(&format!("{}{}", kind, spec_txt))), || format!("objective kind {} on {}", kind, spec_txt));
}

/// Adaptation alone, over extreme parameter values.
pub fn meta(seed: u64, index: u64) {
    use cambrian::meta::{CrossoverParams, MutationParams};
    begin("meta", seed, index);
    tick();
    let mut r = rng_for("meta", seed, index);
    let mut rng: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64(r.gen());
    let pick = |r: &mut rand::rngs::StdRng| match r.gen_range(0..5) {
        0 => 0.0,
        1 => 1.0,
        2 => f64::MIN_POSITIVE,
        3 => 5e-324,
        _ => r.gen(),
    };
    let scale = match r.gen_range(0..5) {
        0 => f64::MAX,
        1 => f64::MIN_POSITIVE,
        2 => 1e300,
        3 => 1e-300,
        _ => 1.0,
    };
    let mut c = CrossoverParams { crossover_prob: pick(&mut r), selection_pressure: pick(&mut r) };
    let mut m = MutationParams { mutation_prob: pick(&mut r), mutation_scale: scale };
    describe(format!("{:?} {:?}", c, m));
    for _ in 0..200 {
        let x = guarded(&["C14", "C15"], "adaptation panics", || cambrian::verif::mutate_meta_params(c.clone(), m.clone(), &mut rng));
        let Some((c2, m2)) = x else { return };
        let ps = [c2.crossover_prob, c2.selection_pressure, m2.mutation_prob];
        if ps.iter().any(|p| !(0.0..=1.0).contains(p)) || !(m2.mutation_scale > 0.0 && m2.mutation_scale.is_finite()) {
            finding(&["C14", "C15"], "adaptive parameters in range", format!("{:?} {:?} becomes {:?} {:?}", c, m, c2, m2));
            return;
        }
        c = c2;
        m = m2;
    }
    case("meta", Some(index), || format!("{:?} {:?}", c, m));
}
