//! C11: the JSON codec and validation of initial guesses.
use crate::gen::*;
use crate::oracle::*;
use crate::report::*;
use cambrian::spec::{Node as S, Spec};
use cambrian::value::{Node as V, Value};
use cambrian::value_util;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value as J};

/// JSON text of a value, written independently of value.rs.
fn encode(v: &V) -> J {
    match v {
        V::Real(x) => json!(x),
        V::Int(x) => json!(x),
        V::Bool(x) => json!(x),
        V::Enum(x) => json!(x),
        V::Const | V::Optional(None) => J::Null,
        V::Optional(Some(x)) => encode(x),
        V::Array(e) => J::Array(e.iter().map(|x| encode(x)).collect()),
        V::Sub(m) => J::Object(m.iter().map(|(k, x)| (k.clone(), encode(x))).collect()),
        V::AnonMap(m) => J::Object(m.iter().map(|(k, x)| (k.to_string(), encode(x))).collect()),
        V::Variant(n, x) => {
            let mut o = serde_json::Map::new();
            o.insert(n.clone(), encode(x));
            J::Object(o)
        }
    }
}

fn junk(r: &mut StdRng) -> J {
    match r.gen_range(0..16) {
        0 => J::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(1.5),
        5 => json!(u64::MAX),
        6 => json!(i64::MIN),
        7 => json!(1e308),
        8 => json!(-1e308),
        9 => json!(""),
        10 => json!("red"),
        11 => json!([]),
        12 => json!({}),
        13 => json!([1, 2, 3]),
        14 => json!({"0": 1, "1": null}),
        _ => json!({"foo": null}),
    }
}

/// A string close to the given one: what a lenient comparison would take for it.
fn near(r: &mut StdRng, s: &str) -> String {
    let mut swapped: Vec<char> = s.chars().collect();
    if let Some(i) = (0..swapped.len()).collect::<Vec<_>>().choose(r) {
        let c = swapped[*i];
        swapped[*i] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
    }
    match r.gen_range(0..10) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => swapped.into_iter().collect(),
        3 => format!(" {}", s),
        4 => format!("{} ", s),
        5 => format!("{}\n", s),
        6 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        7 => s.chars().skip(1).collect(),
        8 => format!("{}{}", s, s.chars().last().unwrap_or('a')),
        _ => format!("\"{}\"", s),
    }
}

fn mutate_json(r: &mut StdRng, j: &mut J, depth: usize) {
    if r.gen_bool(0.15) || depth > 6 {
        *j = junk(r);
        return;
    }
    match j {
        J::Object(o) => match r.gen_range(0..9) {
            7 => {
                let ks: Vec<String> = o.keys().cloned().collect();
                if let Some(k) = ks.choose(r) {
                    let v = o.remove(k).unwrap();
                    o.insert(near(r, k), v);
                }
            }
            0 => {
                let k = *["a", "foo", "bar", "0", "1", "2", "77", "01", "+1", "-1", " 1", "18446744073709551615", "18446744073709551616", "x", "1.0", "é"].choose(r).unwrap();
                let v = o.values().next().cloned().unwrap_or_else(|| junk(r));
                let v = if r.gen_bool(0.7) { v } else { junk(r) };
                o.insert(k.to_string(), v);
            }
            1 => {
                let ks: Vec<String> = o.keys().cloned().collect();
                if let Some(k) = ks.choose(r) {
                    o.remove(k);
                }
            }
            2 => {
                let vs: Vec<J> = o.values().cloned().collect();
                *j = J::Array(vs);
            }
            _ => {
                let ks: Vec<String> = o.keys().cloned().collect();
                match ks.choose(r) {
                    Some(k) => mutate_json(r, o.get_mut(k).unwrap(), depth + 1),
                    None => *j = junk(r),
                }
            }
        },
        J::Array(a) => match r.gen_range(0..6) {
            0 => {
                let v = a.first().cloned().unwrap_or_else(|| junk(r));
                a.push(v);
            }
            1 => {
                a.pop();
            }
            2 => {
                let m = a.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect();
                *j = J::Object(m);
            }
            _ => {
                let n = a.len();
                if n == 0 {
                    *j = junk(r);
                } else {
                    let i = r.gen_range(0..n);
                    mutate_json(r, &mut a[i], depth + 1)
                }
            }
        },
        J::Number(n) => {
            *j = match (n.as_i64(), r.gen_range(0..5)) {
                (Some(x), 0) => json!(x.wrapping_add(1)),
                (Some(x), 1) => json!(x.wrapping_sub(1)),
                (Some(x), 2) => json!(x as f64),
                (None, 0) => json!(n.as_f64().unwrap() * 1.0000001),
                (None, 1) => json!(n.as_f64().unwrap() - 1.0),
                _ => junk(r),
            }
        }
        J::String(x) if r.gen_bool(0.8) => *x = near(r, x),
        _ => *j = junk(r),
    }
}

/// Boundary documents at every numeric leaf: one step outside each bound must be refused,
/// the bound itself accepted.
fn boundary(r: &mut StdRng, s: &S, v: &V) -> J {
    fn next_up(x: f64) -> f64 {
        if x == 0.0 {
            5e-324
        } else if x > 0.0 {
            f64::from_bits(x.to_bits() + 1)
        } else {
            f64::from_bits(x.to_bits() - 1)
        }
    }
    match (s, v) {
        (S::Real { min, max, .. }, V::Real(x)) => match r.gen_range(0..4) {
            0 => json!(min.unwrap_or(*x)),
            1 => json!(max.unwrap_or(*x)),
            2 => json!(min.map(|m| -next_up(-m)).filter(|y| y.is_finite()).unwrap_or(*x)),
            _ => json!(max.map(next_up).filter(|y| y.is_finite()).unwrap_or(*x)),
        },
        (S::Int { min, max, .. }, V::Int(x)) => match r.gen_range(0..4) {
            0 => json!(min.unwrap_or(*x)),
            1 => json!(max.unwrap_or(*x)),
            2 => json!(min.and_then(|m| m.checked_sub(1)).unwrap_or(*x)),
            _ => json!(max.and_then(|m| m.checked_add(1)).unwrap_or(*x)),
        },
        (S::Sub { map }, V::Sub(m)) => J::Object(sorted(m).into_iter().map(|(k, x)| (k.clone(), boundary(r, &map[k], x))).collect()),
        (S::Array { value_type, .. }, V::Array(e)) => J::Array(e.iter().map(|x| boundary(r, value_type, x)).collect()),
        (S::AnonMap { value_type, .. }, V::AnonMap(m)) => J::Object(sorted(m).into_iter().map(|(k, x)| (k.to_string(), boundary(r, value_type, x))).collect()),
        (S::Variant { map, .. }, V::Variant(n, x)) => {
            let mut o = serde_json::Map::new();
            o.insert(n.clone(), boundary(r, &map[n], x));
            J::Object(o)
        }
        (S::Optional { value_type, .. }, V::Optional(Some(x))) => boundary(r, value_type, x),
        (_, v) => encode(v),
    }
}

fn check_doc(spec: &Spec, doc: &J) {
    tick();
    let res = guarded(&["C11", "C15"], "reading a guess panics", || value_util::from_json_value(doc, spec));
    let Some(res) = res else { return };
    if has_colliding_keys(&spec.0, doc) {
        if let Ok(v) = &res {
            if let Err(e) = conforms(&spec.0, &v.0) {
                finding(&["C11", "C01"], "accepted guess conforms", format!("{}\nguess {}", e, doc));
            }
        }
        return;
    }
    let ok = guess_ok(&spec.0, doc);
    match (&res, ok) {
        (Ok(v), true) => {
            if let Err(e) = conforms(&spec.0, &v.0) {
                finding(&["C11", "C01"], "accepted guess conforms", format!("{}\nguess {}", e, doc));
            }
            // reading is faithful: the value encodes the document's content
            if let Some(txt) = guarded(&["C11", "C15"], "to_json panics", || v.to_json()) {
                if !matches_doc(&spec.0, doc, &v.0) {
                    finding(&["C11"], "guess is read as written", format!("guess {}\nread as {}", doc, txt));
                }
            }
        }
        (Ok(v), false) => finding(&["C11", "C01"], "nonconforming guess is rejected", format!("guess {}\naccepted as {:?}", doc, v)),
        (Err(e), true) => finding(&["C11"], "conforming guess is accepted", format!("guess {}\nrejected: {}", doc, e)),
        (Err(_), false) => (),
    }
}

fn matches_doc(s: &S, j: &J, v: &V) -> bool {
    match (s, j, v) {
        (S::Real { .. }, J::Number(n), V::Real(x)) => n.as_f64().map(f64::to_bits) == Some(x.to_bits()),
        (S::Int { .. }, J::Number(n), V::Int(x)) => n.as_i64() == Some(*x),
        (S::Bool { .. }, J::Bool(b), V::Bool(x)) => b == x,
        (S::Const, J::Null, V::Const) => true,
        (S::Enum { .. }, J::String(t), V::Enum(x)) => t == x,
        (S::Sub { map }, J::Object(o), V::Sub(m)) => o.len() == m.len() && m.iter().all(|(k, x)| o.get(k).map_or(false, |e| matches_doc(&map[k], e, x))),
        (S::Array { value_type, .. }, J::Array(a), V::Array(e)) => a.len() == e.len() && a.iter().zip(e).all(|(j, x)| matches_doc(value_type, j, x)),
        (S::AnonMap { value_type, .. }, J::Array(a), V::AnonMap(m)) => {
            a.len() == m.len() && a.iter().enumerate().all(|(i, j)| m.get(&i).map_or(false, |x| matches_doc(value_type, j, x)))
        }
        (S::AnonMap { value_type, .. }, J::Object(o), V::AnonMap(m)) => {
            o.len() == m.len() && o.iter().all(|(k, j)| k.parse::<usize>().ok().and_then(|k| m.get(&k)).map_or(false, |x| matches_doc(value_type, j, x)))
        }
        (S::Variant { map, .. }, J::Object(o), V::Variant(n, x)) => o.len() == 1 && o.get(n).map_or(false, |j| matches_doc(&map[n], j, x)),
        (S::Optional { .. }, J::Null, V::Optional(None)) => true,
        (S::Optional { value_type, .. }, j, V::Optional(Some(x))) => matches_doc(value_type, j, x),
        _ => false,
    }
}

pub fn run_case(seed: u64, index: u64) {
    begin("codec", seed, index);
    tick();
    let mut r = rng_for("codec", seed, index);
    let style = if r.gen_bool(0.6) { Style::Wild } else { Style::Tame };
    let depth = r.gen_range(0..=3);
    let spec = gen_spec(&mut r, depth, style);
    describe(format!("spec:\n{}", spec_yaml(&spec)));
    let mut fp = hash_str(&format!("{:?}", spec));
    for _ in 0..6 {
        let v = gen_val(&mut r, &spec);
        let Some(j) = guarded(&["C11", "C01", "C15"], "to_json panics", || v.to_json()) else { return };
        fp ^= hash_str(&j.to_string());
        if j != encode(&v.0) {
            finding(&["C11"], "encoding", format!("value {:?}\nencoded {}", v, j));
        }
        match guarded(&["C11", "C15"], "reading a guess panics", || value_util::from_json_value(&j, &spec)) {
            None => return,
            Some(Err(e)) => finding(&["C11"], "a conforming value is accepted as a guess", format!("{}\nrejected: {}", j, e)),
            Some(Ok(w)) => {
                let k = w.to_json();
                if k.to_string() != j.to_string() {
                    finding(&["C11"], "round trip", format!("{}\nbecomes {}", j, k));
                }
                if let Err(e) = conforms(&spec.0, &w.0) {
                    finding(&["C11", "C01"], "accepted guess conforms", format!("{}\nguess {}", e, j));
                }
            }
        }
        // through text. The JSON parser may read a number a few units in the last place off
        // (KNOWN_FINDINGS.txt); whatever it reads must then be treated as that number.
        let text = j.to_string();
        let Ok(parsed) = serde_json::from_str::<serde_json::Value>(&text) else {
            finding(&["C11"], "written JSON can be parsed", text);
            continue;
        };
        let exact = parsed.to_string() == text;
        if !exact && !ulp_apart(&parsed, &j) {
            finding(&["C11"], "written JSON can be parsed", format!("{} is read as {}", text, parsed));
        }
        match guarded(&["C11", "C15"], "reading a guess panics", || value_util::from_json_str(&text, &spec)) {
            None => return,
            Some(Err(e)) => {
                let same = !exact && value_util::from_json_value(&parsed, &spec).is_err();
                if same {
                    known(&["C11"], "serde_json-float-parse", format!("{}\nrejected: {}", j, e));
                } else {
                    finding(&["C11"], "a conforming value is accepted as a guess (text)", format!("{}\nrejected: {}", j, e));
                }
            }
            Some(Ok(w)) => {
                let k = w.to_json();
                if k.to_string() != text {
                    if !exact && ulp_apart(&k, &j) && k.to_string() == parsed.to_string() {
                        known(&["C11"], "serde_json-float-parse", format!("{}\nbecomes {}", j, k));
                    } else {
                        finding(&["C11"], "round trip through text", format!("{}\nbecomes {}", j, k));
                    }
                }
            }
        }
        check_doc(&spec, &boundary(&mut r, &spec.0, &v.0));
        for _ in 0..6 {
            let mut d = j.clone();
            for _ in 0..r.gen_range(1..3) {
                mutate_json(&mut r, &mut d, 0);
            }
            check_doc(&spec, &d);
        }
    }
    mix_trace(fp);
    case("codec", Some(fp), || format!("{:?}", spec));
}
/// Equal except for floating point numbers a few units in the last place apart.
fn ulp_apart(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x.is_sign_negative() == y.is_sign_negative() && (x.to_bits() as i64 - y.to_bits() as i64).abs() <= 8
        }
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| ulp_apart(a, b)),
        (Object(x), Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).map_or(false, |b| ulp_apart(a, b)))
        }
        (a, b) => a == b,
    }
}

#[allow(unused)]
fn unused(_: Value) {}
