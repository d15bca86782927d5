//! Generators: well-formed specs, conforming values, corrupted values.
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rustc_hash::FxHashMap;

pub fn rng_for(suite: &str, seed: u64, index: u64) -> StdRng {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in suite.bytes().chain(seed.to_le_bytes()).chain(index.to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    StdRng::seed_from_u64(h)
}

pub const KEYS: &[&str] = &[
    "a", "b", "c", "x y", "k.1", "optional", "0", "1", "é", "value", "foo", "bar", "init_", "Type",
];
const VKEYS: &[&str] = &["foo", "bar", "baz", "0", "optional", "v w", "q"];
const ENAMES: &[&str] = &["red", "green", "blue", "", "0", "null", "é", "a;b", "\"q\""];

pub fn pick_f64(r: &mut StdRng) -> f64 {
    match r.gen_range(0..14) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => -1.0,
        4 => r.gen_range(-1e300..1e300),
        5 => 1e300,
        6 => -1e300,
        7 => f64::MIN_POSITIVE,
        8 => 5e-324,
        9 => f64::MAX,
        10 => f64::MIN,
        11 => 0.1 + r.gen_range(0..10) as f64,
        _ => r.gen_range(-100.0..100.0),
    }
}

fn pick_i64(r: &mut StdRng) -> i64 {
    match r.gen_range(0..12) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => i64::MAX - 1,
        3 => i64::MIN + 1,
        4 => (1i64 << 53) + 1,
        5 => 0,
        6 => -1,
        7 => r.gen::<i64>(),
        _ => r.gen_range(-50..50),
    }
}

fn pick_scale(r: &mut StdRng) -> f64 {
    match r.gen_range(0..8) {
        0 => 1e-300,
        1 => 1e300,
        2 => f64::MAX,
        3 => 5e-324,
        4 => 10.0,
        5 => r.gen_range(1e-3..1e3),
        _ => 1.0,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// any bounds and magnitudes
    Wild,
    /// moderate magnitudes, scale >= 1, no degenerate ranges
    Tame,
}

fn bounds<T: Copy + PartialOrd>(r: &mut StdRng, mut f: impl FnMut(&mut StdRng) -> T) -> (T, Option<T>, Option<T>) {
    loop {
        let mut v = [f(r), f(r), f(r)];
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let min = if r.gen_bool(0.5) { Some(v[0]) } else { None };
        let max = if r.gen_bool(0.5) { Some(v[2]) } else { None };
        if let (Some(a), Some(b)) = (min, max) {
            if a >= b {
                continue;
            }
        }
        let init = match r.gen_range(0..4) {
            0 => min.unwrap_or(v[1]),
            1 => max.unwrap_or(v[1]),
            _ => v[1],
        };
        return (init, min, max);
    }
}

pub fn gen_node(r: &mut StdRng, depth: usize, style: Style) -> S {
    let k = if depth == 0 { r.gen_range(0..5) } else { r.gen_range(0..12) };
    match k {
        0 => {
            let (init, min, max) = match style {
                Style::Wild => bounds(r, pick_f64),
                Style::Tame => bounds(r, |r| r.gen_range(-1000.0..1000.0)),
            };
            let scale = if style == Style::Wild { pick_scale(r) } else { r.gen_range(1.0..10.0) };
            S::Real { init, scale, min, max }
        }
        1 => {
            let (init, min, max) = match style {
                Style::Wild => bounds(r, pick_i64),
                Style::Tame => bounds(r, |r| r.gen_range(-1000..1000)),
            };
            let scale = if style == Style::Wild { pick_scale(r) } else { r.gen_range(1.0..10.0) };
            S::Int { init, scale, min, max }
        }
        2 => S::Bool { init: r.gen() },
        3 => {
            let n = r.gen_range(2..=4);
            let values: Vec<String> = ENAMES.choose_multiple(r, n).map(|s| s.to_string()).collect();
            let init = values.choose(r).unwrap().clone();
            S::Enum { values, init }
        }
        4 => S::Const,
        5 | 6 => {
            let n = r.gen_range(1..=3);
            let keys: Vec<&&str> = KEYS.choose_multiple(r, n).collect();
            let mut map = FxHashMap::default();
            for k in keys {
                map.insert(k.to_string(), Box::new(gen_node(r, depth - 1, style)));
            }
            S::Sub { map }
        }
        7 => S::Array { value_type: Box::new(gen_node(r, depth - 1, style)), size: r.gen_range(2..=4) },
        8 | 9 => {
            let init_size = if r.gen_bool(0.06) { r.gen_range(5..24usize) } else { r.gen_range(0..=4usize) };
            let min_size = match r.gen_range(0..4) {
                0 => Some(init_size),
                1 => Some(r.gen_range(0..=init_size)),
                _ => None,
            };
            let max_size = match r.gen_range(0..4) {
                0 => Some(init_size.max(1)),
                1 => Some(init_size.max(1) + r.gen_range(0..=2usize)),
                _ => None,
            };
            let (min_size, max_size) = match (min_size, max_size) {
                (Some(a), Some(b)) if a >= b => (Some(a), Some(a + 1)),
                x => x,
            };
            let value_type = Box::new(gen_node(r, if init_size > 4 { 0 } else { depth - 1 }, style));
            S::AnonMap { value_type, init_size, min_size, max_size }
        }
        10 => {
            let n = r.gen_range(2..=3);
            let keys: Vec<&&str> = VKEYS.choose_multiple(r, n).collect();
            let init = keys.choose(r).unwrap().to_string();
            let mut map = FxHashMap::default();
            for k in keys {
                map.insert(k.to_string(), Box::new(gen_node(r, depth - 1, style)));
            }
            S::Variant { map, init }
        }
        _ => S::Optional { value_type: Box::new(gen_node(r, depth - 1, style)), init_present: r.gen() },
    }
}

pub fn gen_spec(r: &mut StdRng, depth: usize, style: Style) -> Spec {
    // most roots are sub nodes, as in real spec files
    if r.gen_bool(0.6) {
        let n = r.gen_range(1..=3);
        let keys: Vec<&&str> = KEYS.choose_multiple(r, n).collect();
        let mut map = FxHashMap::default();
        for k in keys {
            map.insert(k.to_string(), Box::new(gen_node(r, depth, style)));
        }
        Spec(S::Sub { map })
    } else {
        Spec(gen_node(r, depth, style))
    }
}

pub fn sorted<'a, T: Ord, U>(m: &'a FxHashMap<T, U>) -> Vec<(&'a T, &'a U)> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    v
}

fn is_leaf(s: &S) -> bool {
    matches!(s, S::Real { .. } | S::Int { .. } | S::Bool { .. } | S::Enum { .. } | S::Const)
}

/// A value conforming to a well-formed spec.
pub fn gen_value(r: &mut StdRng, s: &S) -> V {
    match s {
        S::Real { init, min, max, .. } => {
            let c = match r.gen_range(0..4) {
                0 => *init,
                1 => min.unwrap_or(*init),
                2 => max.unwrap_or(*init),
                _ => {
                    let x = pick_f64(r);
                    if min.map_or(true, |m| x >= m) && max.map_or(true, |m| x <= m) {
                        x
                    } else {
                        *init
                    }
                }
            };
            V::Real(c)
        }
        S::Int { init, min, max, .. } => {
            let c = match r.gen_range(0..4) {
                0 => *init,
                1 => min.unwrap_or(*init),
                2 => max.unwrap_or(*init),
                _ => {
                    let x = pick_i64(r);
                    if min.map_or(true, |m| x >= m) && max.map_or(true, |m| x <= m) {
                        x
                    } else {
                        *init
                    }
                }
            };
            V::Int(c)
        }
        S::Bool { .. } => V::Bool(r.gen()),
        S::Enum { values, .. } => V::Enum(values.choose(r).unwrap().clone()),
        S::Const => V::Const,
        S::Sub { map } => {
            let mut out = FxHashMap::default();
            for (k, v) in sorted(map) {
                out.insert(k.clone(), Box::new(gen_value(r, v)));
            }
            V::Sub(out)
        }
        S::Array { value_type, size } => V::Array((0..*size).map(|_| Box::new(gen_value(r, value_type))).collect()),
        S::AnonMap { value_type, init_size, min_size, max_size } => {
            let lo = min_size.unwrap_or(0);
            let hi = max_size.unwrap_or(init_size + 3).max(lo);
            let n = match r.gen_range(0..4) {
                0 => lo,
                1 => hi,
                _ => r.gen_range(lo..=hi),
            };
            // now and then a map much larger than its initial size
            let n = if is_leaf(value_type) && max_size.is_none() && r.gen_bool(0.2) { r.gen_range(lo.max(8)..=lo.max(8) + 24) } else { n };
            let base = if r.gen_bool(0.3) { r.gen_range(0..1000usize) } else { 0 };
            let mut out = FxHashMap::default();
            while out.len() < n {
                let key = match r.gen_range(0..20) {
                    0 => usize::MAX,
                    1 => usize::MAX - 1,
                    2 => r.gen(),
                    3..=5 => r.gen_range(0..100),
                    _ => base + r.gen_range(0..n + 2),
                };
                let v = Box::new(gen_value(r, value_type));
                out.insert(key, v);
            }
            V::AnonMap(out)
        }
        S::Variant { map, .. } => {
            let ks = sorted(map);
            let (k, v) = ks.choose(r).unwrap();
            V::Variant((*k).clone(), Box::new(gen_value(r, v)))
        }
        S::Optional { value_type, .. } => {
            // `null` denotes absence, so an optional whose content encodes as null has no
            // present form in JSON; the present form is still a legal in-memory value.
            if r.gen() {
                V::Optional(None)
            } else {
                V::Optional(Some(Box::new(gen_value(r, value_type))))
            }
        }
    }
}

pub fn gen_val(r: &mut StdRng, s: &Spec) -> Value {
    Value(gen_value(r, &s.0))
}

fn yf(x: f64) -> serde_yaml::Value {
    serde_yaml::Value::Number(serde_yaml::Number::from(x))
}
fn ys(x: &str) -> serde_yaml::Value {
    serde_yaml::Value::String(x.to_string())
}

/// The YAML document that declares exactly `n` (no type definitions).
pub fn to_yaml(n: &S) -> serde_yaml::Value {
    use serde_yaml::{Mapping, Value as Y};
    let mut m = Mapping::new();
    match n {
        S::Real { init, scale, min, max } => {
            m.insert(ys("type"), ys("real"));
            m.insert(ys("init"), yf(*init));
            m.insert(ys("scale"), yf(*scale));
            if let Some(x) = min {
                m.insert(ys("min"), yf(*x));
            }
            if let Some(x) = max {
                m.insert(ys("max"), yf(*x));
            }
        }
        S::Int { init, scale, min, max } => {
            m.insert(ys("type"), ys("int"));
            m.insert(ys("init"), Y::Number((*init).into()));
            m.insert(ys("scale"), yf(*scale));
            if let Some(x) = min {
                m.insert(ys("min"), Y::Number((*x).into()));
            }
            if let Some(x) = max {
                m.insert(ys("max"), Y::Number((*x).into()));
            }
        }
        S::Bool { init } => {
            m.insert(ys("type"), ys("bool"));
            m.insert(ys("init"), Y::Bool(*init));
        }
        S::Sub { map } => {
            m.insert(ys("type"), ys("sub"));
            for (k, v) in sorted(map) {
                m.insert(ys(k), to_yaml(v));
            }
        }
        S::Array { value_type, size } => {
            m.insert(ys("type"), ys("array"));
            m.insert(ys("size"), Y::Number((*size as u64).into()));
            m.insert(ys("valueType"), to_yaml(value_type));
        }
        S::AnonMap { value_type, init_size, min_size, max_size } => {
            m.insert(ys("type"), ys("anon map"));
            m.insert(ys("initSize"), Y::Number((*init_size as u64).into()));
            if let Some(x) = min_size {
                m.insert(ys("minSize"), Y::Number((*x as u64).into()));
            }
            if let Some(x) = max_size {
                m.insert(ys("maxSize"), Y::Number((*x as u64).into()));
            }
            m.insert(ys("valueType"), to_yaml(value_type));
        }
        S::Variant { map, init } => {
            m.insert(ys("type"), ys("variant"));
            m.insert(ys("init"), ys(init));
            for (k, v) in sorted(map) {
                m.insert(ys(k), to_yaml(v));
            }
        }
        S::Enum { values, init } => {
            m.insert(ys("type"), ys("enum"));
            m.insert(ys("init"), ys(init));
            m.insert(ys("values"), Y::Sequence(values.iter().map(|v| ys(v)).collect()));
        }
        S::Optional { value_type, init_present } => {
            m.insert(ys("type"), ys("optional"));
            m.insert(ys("initPresent"), Y::Bool(*init_present));
            m.insert(ys("valueType"), to_yaml(value_type));
        }
        S::Const => {
            m.insert(ys("type"), ys("const"));
        }
    }
    Y::Mapping(m)
}

pub fn spec_yaml(s: &Spec) -> String {
    serde_yaml::to_string(&to_yaml(&s.0)).unwrap()
}
