//! Operator histories: mutate / crossover driven directly (C01, C12, C13, C15, C17).
use crate::gen::*;
use crate::oracle::*;
use crate::report::*;
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation;
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::verif::PathContext;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};

fn pick_prob(r: &mut StdRng) -> f64 {
    match r.gen_range(0..8) {
        0 => 0.0,
        1 => 1.0,
        2 => 1e-9,
        3 => f64::MIN_POSITIVE,
        4 => 1.0 - f64::EPSILON,
        _ => r.gen(),
    }
}

fn pick_mscale(r: &mut StdRng) -> f64 {
    match r.gen_range(0..8) {
        0 => f64::MIN_POSITIVE,
        1 => f64::MAX,
        2 => 1e12,
        3 => 1e-12,
        4 => 1e300,
        _ => 1.0,
    }
}

pub fn run_case(seed: u64, index: u64) {
    begin("ops", seed, index);
    tick();
    let mut r = rng_for("ops", seed, index);
    let style = if r.gen_bool(0.5) { Style::Wild } else { Style::Tame };
    let depth = r.gen_range(0..=3);
    let spec = gen_spec(&mut r, depth, style);
    describe(format!("spec:\n{}", spec_yaml(&spec)));
    let mut path_ctx = PathContext::default();
    let Some(first) = guarded(&["C01", "C15", "C10"], "initial_value panics", || spec.initial_value()) else { return };
    if !same(&first.0, &initial(&spec.0)) {
        finding(&["C01", "C08", "C10"], "initial value is the declared one", format!("{:?}", first));
    }
    let start = if r.gen_bool(0.5) { gen_val(&mut r, &spec) } else { first };
    if guarded(&["C15", "C11", "C01"], "registering the initial value panics", || path_ctx.add_nodes_for(&start)).is_none() {
        return;
    }
    let mut pop: Vec<Value> = vec![start];
    let mut alg_rng = StdRng::seed_from_u64(r.gen());
    let cross = Crossover::new();
    let steps = 25;
    let mut fp = hash_str(&format!("{:?}", spec));
    for _ in 0..steps {
        let mp = MutationParams { mutation_prob: pick_prob(&mut r), mutation_scale: pick_mscale(&mut r) };
        let cp = CrossoverParams { crossover_prob: pick_prob(&mut r), selection_pressure: pick_prob(&mut r) };
        // a foreign conforming parent now and then (all its keys registered, as for an initial guess)
        if r.gen_bool(0.1) {
            let v = gen_val(&mut r, &spec);
            path_ctx.add_nodes_for(&v);
            pop.push(v);
        }
        let n = r.gen_range(1..=pop.len().min(5));
        let mut ps: Vec<&Value> = pop.choose_multiple(&mut r, n).collect();
        let identical = r.gen_bool(0.1);
        if identical {
            let p = ps[0];
            ps = vec![p; r.gen_range(1..4)];
        }
        let child = guarded(&["C12", "C15", "C01"], "crossover panics", || cross.crossover(&spec, &ps, &cp, &mut path_ctx, &mut alg_rng));
        let Some(child) = child else { return };
        let nodes: Vec<&V> = ps.iter().map(|v| &v.0).collect();
        let ctx = || format!("parents {:?}\nparams {:?}\nchild {:?}", ps, cp, child);
        if let Err(e) = conforms(&spec.0, &child.0) {
            finding(&["C01"], "recombination conforms", format!("{}\n{}", e, ctx()));
        }
        if let Err(e) = recomb(&spec.0, &nodes, &child.0) {
            finding(&["C12"], "provenance", format!("{}\n{}", e, ctx()));
        }
        if (identical || ps.len() == 1) && !same(&nodes[0], &child.0) {
            finding(&["C12"], "identical parents", ctx());
        }
        let input = if r.gen_bool(0.7) { child.clone() } else { pop.choose(&mut r).unwrap().clone() };
        if conforms(&spec.0, &input.0).is_err() {
            return; // already reported
        }
        let m = guarded(&["C13", "C15", "C01", "C17"], "mutate panics", || mutation::mutate(&spec, &input, &mp, &mut path_ctx, &mut alg_rng));
        let Some(m) = m else { return };
        let ctx = || format!("input {:?}\nparams {:?}\nresult {:?}", input, mp, m);
        if let Err(e) = conforms(&spec.0, &m.0) {
            finding(&["C01"], "mutation conforms", format!("{}\n{}", e, ctx()));
        }
        let p = if mp.mutation_prob == 0.0 {
            P::Zero
        } else if mp.mutation_prob == 1.0 {
            P::One
        } else {
            P::Other
        };
        let mut live = Vec::new();
        if let Err(e) = mutated(&spec.0, &input.0, &m.0, p, &mut live) {
            let props: &[&str] = if e.contains("not resized") { &["C13", "C17"] } else { &["C13"] };
            finding(props, "locality", format!("{}\n{}", e, ctx()));
        }
        for l in live.into_iter().take(1) {
            finding(&["C17"], "liveness", format!("{}\n{}", l, ctx()));
        }
        fp = fp.rotate_left(7) ^ hash_str(&format!("{:?}", m.0.to_json_dbg()));
        if guarded(&["C01", "C15"], "to_json panics", || m.to_json()).is_none() {
            return;
        }
        if conforms(&spec.0, &m.0).is_ok() {
            pop.push(m);
        }
        if pop.len() > 10 {
            let i = r.gen_range(0..pop.len());
            pop.remove(i);
        }
    }
    mix_trace(fp);
    case("ops", if matches!(spec.0, S::Const) { None } else { Some(fp) }, || format!("{:?}", spec));
}

trait Dbg {
    fn to_json_dbg(&self) -> String;
}
impl Dbg for V {
    fn to_json_dbg(&self) -> String {
        // order-independent text
        fn go(v: &V, o: &mut String) {
            use std::fmt::Write;
            match v {
                V::Sub(m) => {
                    for (k, x) in sorted(m) {
                        write!(o, "{:?}:", k).unwrap();
                        go(x, o);
                    }
                }
                V::AnonMap(m) => {
                    for (k, x) in sorted(m) {
                        write!(o, "{:?}:", k).unwrap();
                        go(x, o);
                    }
                }
                V::Array(e) => e.iter().for_each(|x| go(x, o)),
                V::Variant(n, x) => {
                    write!(o, "<{}>", n).unwrap();
                    go(x, o)
                }
                V::Optional(Some(x)) => {
                    o.push('?');
                    go(x, o)
                }
                x => write!(o, "{:?};", x).unwrap(),
            }
        }
        let mut s = String::new();
        go(self, &mut s);
        s
    }
}

fn leaf_spec(n: S) -> Spec {
    Spec(n)
}

/// Dedicated liveness / locality cases with small fixed shapes.
pub fn targeted(seed: u64, index: u64) {
    begin("targeted", seed, index);
    tick();
    let mut r = rng_for("targeted", seed, index);
    let mut rng = StdRng::seed_from_u64(r.gen());
    let one = MutationParams { mutation_prob: 1.0, mutation_scale: 1.0 };
    // unpinned reals and ints with scale >= 1 vary within a few attempts
    for is_int in [false, true] {
        let scale: f64 = r.gen_range(1.0..5.0);
        let (lo, hi) = (r.gen_range(-1000..0) as f64, r.gen_range(2..1000) as f64);
        let (min, max) = (if r.gen() { Some(lo) } else { None }, if r.gen() { Some(hi) } else { None });
        let x = r.gen_range(lo..hi).round();
        let x = if r.gen_bool(0.2) { if r.gen() { min.unwrap_or(x) } else { max.unwrap_or(x) } } else { x };
        let (spec, val) = if is_int {
            (S::Int { init: x as i64, scale, min: min.map(|v| v as i64), max: max.map(|v| v as i64) }, V::Int(x as i64))
        } else {
            (S::Real { init: x, scale, min, max }, V::Real(x))
        };
        let spec = leaf_spec(spec);
        describe(format!("{:?} value {:?}", spec, val));
        let val = Value(val);
        let mut ctx = PathContext::default();
        ctx.add_nodes_for(&val);
        let mut varied = 0;
        let mut up = 0;
        let mut down = 0;
        for _ in 0..60 {
            let m = guarded(&["C17", "C15"], "mutate panics", || mutation::mutate(&spec, &val, &one, &mut ctx, &mut rng));
            let Some(m) = m else { return };
            match (&m.0, &val.0) {
                (V::Real(a), V::Real(b)) if a != b => {
                    varied += 1;
                    if a > b { up += 1 } else { down += 1 }
                }
                (V::Int(a), V::Int(b)) if a != b => {
                    varied += 1;
                    if a > b { up += 1 } else { down += 1 }
                }
                _ => (),
            }
        }
        if varied == 0 {
            finding(&["C17"], "numbers vary", format!("60 mutations at probability 1 left {:?} of {:?} unchanged", val, spec));
        }
        // both directions are reachable unless a bound forbids it (a Cauchy step is symmetric)
        let at = |b: Option<f64>| b == Some(x);
        if !at(max) && !at(min) && (up == 0 || down == 0) {
            finding(&["C17"], "numbers vary in both directions", format!("{} up, {} down, from {:?} of {:?}", up, down, val, spec));
        }
    }
    // switching starts from the declared initial value
    let inner = |r: &mut StdRng, kind: usize| match kind {
        0 => S::Real { init: r.gen_range(1.0..50.0), scale: 1.0, min: None, max: None },
        1 => S::Int { init: r.gen_range(1..50), scale: 1.0, min: None, max: None },
        2 => S::Bool { init: r.gen() },
        3 => S::Enum { values: vec!["a".into(), "b".into(), "c".into()], init: ["a", "b", "c"][r.gen_range(0..3)].into() },
        _ => S::AnonMap {
            value_type: Box::new(S::Bool { init: true }),
            init_size: r.gen_range(1..4),
            min_size: None,
            max_size: None,
        },
    };
    let p = 0.2;
    let low = MutationParams { mutation_prob: p, mutation_scale: 1.0 };
    for optional in [true, false, false] {
        let kind = r.gen_range(0..5);
        let a = inner(&mut r, kind);
        // the old option often has the same type as the new one
        let kind_b = if r.gen_bool(0.6) { kind } else { r.gen_range(0..5) };
        let b = inner(&mut r, kind_b);
        let (spec, val) = if optional {
            (S::Optional { value_type: Box::new(a.clone()), init_present: r.gen() }, V::Optional(None))
        } else {
            let mut map = rustc_hash::FxHashMap::default();
            map.insert("foo".to_string(), Box::new(a.clone()));
            map.insert("bar".to_string(), Box::new(b.clone()));
            let mut cur = gen_value(&mut r, &b);
            for _ in 0..8 {
                if same(&cur, &initial(&a)) {
                    cur = gen_value(&mut r, &b);
                }
            }
            (S::Variant { map, init: if r.gen() { "foo".into() } else { "bar".into() } }, V::Variant("bar".into(), Box::new(cur)))
        };
        let spec = Spec(spec);
        let val = Value(val);
        describe(format!("{:?} value {:?}", spec, val));
        let mut ctx = PathContext::default();
        ctx.add_nodes_for(&val);
        let (mut switched, mut from_init) = (0, 0);
        let want = initial(&a);
        for _ in 0..300 {
            let m = guarded(&["C13", "C15"], "mutate panics", || mutation::mutate(&spec, &val, &low, &mut ctx, &mut rng));
            let Some(m) = m else { return };
            let got = match &m.0 {
                V::Optional(Some(x)) => Some(&**x),
                V::Variant(n, x) if n == "foo" => Some(&**x),
                _ => None,
            };
            if let Some(g) = got {
                switched += 1;
                // the elements of a map vary as well: compare only its size then
                let eq = match (g, &want) {
                    (V::AnonMap(x), V::AnonMap(y)) => x.len() == y.len(),
                    _ => same(g, &want),
                };
                if eq {
                    from_init += 1;
                }
            }
        }
        // expected switched = 60, of which 80 % keep the initial value
        if switched < 15 {
            finding(&["C17", "C13"], "switching happens", format!("only {} of 300 mutations at probability 0.2 switched {:?}", switched, spec));
        } else if from_init * 3 < switched {
            finding(&["C13"], "switch starts from the initial value", format!("{} of {} switched values equal the declared initial value {:?}", from_init, switched, want));
        }
    }
    // mixed offspring
    let k = 6;
    let mut map = rustc_hash::FxHashMap::default();
    for i in 0..k {
        map.insert(format!("k{}", i), Box::new(S::Int { init: 0, scale: 1.0, min: None, max: None }));
    }
    let shapes: Vec<(Spec, Box<dyn Fn(i64) -> V>)> = vec![
        (
            Spec(S::Sub { map }),
            Box::new(move |x| V::Sub((0..k).map(|i| (format!("k{}", i), Box::new(V::Int(x)))).collect())),
        ),
        (
            Spec(S::Array { value_type: Box::new(S::Int { init: 0, scale: 1.0, min: None, max: None }), size: k }),
            Box::new(move |x| V::Array((0..k).map(|_| Box::new(V::Int(x))).collect())),
        ),
        (
            Spec(S::AnonMap { value_type: Box::new(S::Int { init: 0, scale: 1.0, min: None, max: None }), init_size: k, min_size: None, max_size: None }),
            Box::new(move |x| V::AnonMap((0..k).map(|i| (i, Box::new(V::Int(x)))).collect())),
        ),
    ];
    let full = CrossoverParams { crossover_prob: 1.0, selection_pressure: 0.5 };
    for (spec, mk) in shapes {
        let ps = [Value(mk(1)), Value(mk(2)), Value(mk(3))];
        let refs: Vec<&Value> = ps.iter().collect();
        describe(format!("{:?}", spec));
        let mut ctx = PathContext::default();
        ctx.add_nodes_for(&ps[0]);
        let mut mixed = 0;
        for _ in 0..40 {
            let c = guarded(&["C17", "C12", "C15"], "crossover panics", || Crossover::new().crossover(&spec, &refs, &full, &mut ctx, &mut rng));
            let Some(c) = c else { return };
            if !ps.iter().any(|p| same(&p.0, &c.0)) {
                mixed += 1;
            }
        }
        if mixed < 5 {
            finding(&["C17"], "mixed offspring", format!("{} of 40 recombinations at crossover probability 1 were mixed", mixed));
        }
    }
    // selection: rank probabilities do not increase
    let n = r.gen_range(2..6usize);
    let press: f64 = *[0.0, 0.2, 0.5, 0.9, 1.0].choose(&mut r).unwrap();
    let spec = Spec(S::Int { init: 0, scale: 1.0, min: None, max: None });
    let ps: Vec<Value> = (0..n as i64).map(|i| Value(V::Int(i))).collect();
    let refs: Vec<&Value> = ps.iter().collect();
    let cp = CrossoverParams { crossover_prob: 0.5, selection_pressure: press };
    describe(format!("selection among {} with pressure {}", n, press));
    let mut ctx = PathContext::default();
    let mut count = vec![0i64; n];
    let draws = 4000;
    for _ in 0..draws {
        let c = guarded(&["C17", "C15"], "crossover panics", || Crossover::new().crossover(&spec, &refs, &cp, &mut ctx, &mut rng));
        let Some(c) = c else { return };
        if let V::Int(i) = c.0 {
            count[i as usize] += 1;
        }
    }
    let sigma = 6.0 * (draws as f64).sqrt();
    for i in 1..n {
        if (count[i] - count[i - 1]) as f64 > sigma {
            finding(&["C17"], "selection favours better ranks", format!("pressure {}: counts {:?}", press, count));
        }
    }
    if press >= 0.5 && (count[0] as f64) < count[n - 1] as f64 * (1.0 + press * 0.3) {
        finding(&["C17"], "selection favours better ranks", format!("pressure {}: counts {:?}", press, count));
    }
    case("targeted", Some(hash_str(&format!("{}{:?}", press, count))), || format!("selection among {} with pressure {}: {:?}", n, press, count));
}
