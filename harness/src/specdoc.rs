//! C10: spec documents against an independent reference reader.
use crate::gen::*;
use crate::oracle::*;
use crate::report::*;
use cambrian::spec::{Node as S, Spec};
use cambrian::spec_util;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use rustc_hash::FxHashMap;
use serde_yaml::{Mapping, Value as Y};
use std::collections::{BTreeMap, BTreeSet};

type R<T> = Result<T, String>;
type Scope = BTreeMap<String, S>;

const BUILTIN: &[&str] = &["real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const"];

fn attrs(m: &Mapping, allowed: &[&str]) -> R<()> {
    for k in m.keys() {
        match k {
            Y::String(s) if allowed.contains(&s.as_str()) => (),
            k => return Err(format!("attribute {:?}", k)),
        }
    }
    Ok(())
}
fn opt<T>(m: &Mapping, k: &str, f: impl Fn(&Y) -> Option<T>) -> R<Option<T>> {
    match m.get(k) {
        None => Ok(None),
        Some(v) => f(v).map(Some).ok_or(format!("type of {}", k)),
    }
}
fn req<T>(m: &Mapping, k: &str, f: impl Fn(&Y) -> Option<T>) -> R<T> {
    opt(m, k, f)?.ok_or(format!("{} missing", k))
}
fn num(v: &Y) -> Option<f64> {
    match v {
        Y::Number(n) => n.as_f64().filter(|x| x.is_finite()),
        _ => None,
    }
}
fn int(v: &Y) -> Option<i64> {
    match v {
        Y::Number(n) => n.as_i64(),
        _ => None,
    }
}
fn size(v: &Y) -> Option<usize> {
    match v {
        Y::Number(n) => n.as_u64().map(|x| x as usize),
        _ => None,
    }
}
fn text(v: &Y) -> Option<String> {
    match v {
        Y::String(s) => Some(s.clone()),
        _ => None,
    }
}
fn boolean(v: &Y) -> Option<bool> {
    match v {
        Y::Bool(b) => Some(*b),
        _ => None,
    }
}

/// The reference reader: what the document declares, or why it is ill-formed.
fn read(y: &Y, scope: &Scope) -> R<S> {
    let m = match y {
        Y::Mapping(m) => m,
        _ => return Err("not a map".into()),
    };
    let ty = opt(m, "type", text)?.unwrap_or("sub".into());
    let node = match ty.as_str() {
        "real" => {
            attrs(m, &["type", "min", "max", "scale", "init"])?;
            S::Real { init: req(m, "init", num)?, scale: req(m, "scale", num)?, min: opt(m, "min", num)?, max: opt(m, "max", num)? }
        }
        "int" => {
            attrs(m, &["type", "min", "max", "scale", "init"])?;
            S::Int { init: req(m, "init", int)?, scale: req(m, "scale", num)?, min: opt(m, "min", int)?, max: opt(m, "max", int)? }
        }
        "bool" => {
            attrs(m, &["type", "init"])?;
            S::Bool { init: req(m, "init", boolean)? }
        }
        "const" => {
            attrs(m, &["type"])?;
            S::Const
        }
        "enum" => {
            attrs(m, &["type", "init", "values"])?;
            let values = req(m, "values", |v| match v {
                Y::Sequence(s) => s.iter().map(text).collect::<Option<Vec<String>>>(),
                _ => None,
            })?;
            S::Enum { values, init: req(m, "init", text)? }
        }
        "optional" => {
            attrs(m, &["type", "initPresent", "valueType"])?;
            S::Optional { value_type: Box::new(read(m.get("valueType").ok_or("valueType")?, scope)?), init_present: req(m, "initPresent", boolean)? }
        }
        "array" => {
            attrs(m, &["type", "size", "valueType"])?;
            S::Array { value_type: Box::new(read(m.get("valueType").ok_or("valueType")?, scope)?), size: req(m, "size", size)? }
        }
        "anon map" => {
            attrs(m, &["type", "initSize", "minSize", "maxSize", "valueType"])?;
            S::AnonMap {
                value_type: Box::new(read(m.get("valueType").ok_or("valueType")?, scope)?),
                init_size: req(m, "initSize", size)?,
                min_size: opt(m, "minSize", size)?,
                max_size: opt(m, "maxSize", size)?,
            }
        }
        "variant" => {
            let init = req(m, "init", text)?;
            let mut map = FxHashMap::default();
            for (k, v) in m {
                let k = text(k).ok_or("key")?;
                if k != "type" && k != "init" {
                    map.insert(k, Box::new(read(v, scope)?));
                }
            }
            S::Variant { map, init }
        }
        "sub" => {
            let mut inner = scope.clone();
            for (k, v) in m {
                let k = text(k).ok_or("key")?;
                if let Some(name) = k.strip_prefix("typeDef ") {
                    if BUILTIN.contains(&name) {
                        return Err("built-in name".into());
                    }
                    let def = read(v, &inner)?;
                    inner.insert(name.to_string(), def);
                }
            }
            let mut map = FxHashMap::default();
            for (k, v) in m {
                let k = text(k).ok_or("key")?;
                if k != "type" && !k.starts_with("typeDef ") {
                    map.insert(k, Box::new(read(v, &inner)?));
                }
            }
            S::Sub { map }
        }
        name => {
            attrs(m, &["type"])?;
            return scope.get(name).cloned().ok_or(format!("unknown type {}", name));
        }
    };
    wf_top(&node)?;
    Ok(node)
}

// wf of this node (children are already checked)
fn wf_top(n: &S) -> R<()> {
    wf(n)
}

/// documents with tagged values are only checked for crashes; tagged keys are no attribute names
fn tagged(y: &Y) -> bool {
    match y {
        Y::Tagged(_) => true,
        Y::Mapping(m) => m.iter().any(|(_, v)| tagged(v)),
        Y::Sequence(s) => s.iter().any(tagged),
        _ => false,
    }
}

fn same_spec(a: &S, b: &S) -> bool {
    match (a, b) {
        (S::Real { init: i, scale: s, min: n, max: x }, S::Real { init: j, scale: t, min: o, max: y }) => {
            i.to_bits() == j.to_bits() && s.to_bits() == t.to_bits() && n.map(f64::to_bits) == o.map(f64::to_bits) && x.map(f64::to_bits) == y.map(f64::to_bits)
        }
        (S::Sub { map: m }, S::Sub { map: n }) => m.len() == n.len() && m.iter().all(|(k, v)| n.get(k).map_or(false, |w| same_spec(v, w))),
        (S::Variant { map: m, init: i }, S::Variant { map: n, init: j }) => i == j && m.len() == n.len() && m.iter().all(|(k, v)| n.get(k).map_or(false, |w| same_spec(v, w))),
        (S::Array { value_type: v, size: s }, S::Array { value_type: w, size: t }) => s == t && same_spec(v, w),
        (S::AnonMap { value_type: v, init_size: a, min_size: b, max_size: c }, S::AnonMap { value_type: w, init_size: d, min_size: e, max_size: f }) => {
            a == d && b == e && c == f && same_spec(v, w)
        }
        (S::Optional { value_type: v, init_present: a }, S::Optional { value_type: w, init_present: b }) => a == b && same_spec(v, w),
        _ => a == b,
    }
}

pub fn check_text(doc: &str) -> bool {
    tick();
    describe(format!("document:\n{}", doc));
    let Some(got) = guarded(&["C10", "C15"], "parsing panics", || spec_util::from_yaml_str(doc)) else { return false };
    let parsed: Result<Y, _> = serde_yaml::from_str(doc);
    let model = match &parsed {
        Err(e) => Err(e.to_string()),
        Ok(y) if tagged(y) => {
            if let Ok(s) = &got {
                accepted(s);
            }
            return false;
        }
        Ok(y) => read(y, &Scope::new()),
    };
    match (&got, &model) {
        (Ok(s), Ok(want)) => {
            if !same_spec(&s.0, want) {
                finding(&["C10"], "parsed as written", format!("declared {:?}\nparsed {:?}", want, s.0));
            }
            accepted(s);
            true
        }
        (Ok(s), Err(why)) => {
            finding(&["C10"], "ill-formed document is rejected", format!("{}\naccepted as {:?}", why, s.0));
            false
        }
        (Err(e), Ok(_)) => {
            finding(&["C10"], "well-formed document is accepted", format!("rejected: {}", e));
            false
        }
        (Err(e), Err(_)) => {
            let _ = guarded(&["C10"], "formatting the error panics", || format!("{} {:?}", e, e));
            false
        }
    }
}

fn accepted(s: &Spec) {
    if let Err(e) = wf(&s.0) {
        finding(&["C10"], "accepted spec is well-formed", e);
        return;
    }
    // An initial value that does not fit in memory is not built.
    if nodes(&s.0) > 1e5 {
        return;
    }
    if let Some(v) = guarded(&["C10", "C01"], "initial_value panics", || s.initial_value()) {
        if let Err(e) = conforms(&s.0, &v.0) {
            finding(&["C10", "C01"], "initial value conforms", e);
        }
    }
}

fn nodes(n: &S) -> f64 {
    match n {
        S::Array { value_type, size } => 1.0 + *size as f64 * nodes(value_type),
        S::AnonMap { value_type, init_size, .. } => 1.0 + *init_size as f64 * nodes(value_type),
        S::Sub { map } => 1.0 + map.values().map(|c| nodes(c)).sum::<f64>(),
        S::Variant { map, init } => 1.0 + nodes(&map[init]),
        S::Optional { value_type, .. } => 1.0 + nodes(value_type),
        _ => 1.0,
    }
}

const NAMES: &[&str] = &["t", "u", "v w", "point", ""];

/// Render a spec as a document, introducing type definitions and references on the way.
fn render(r: &mut StdRng, n: &S, scope: &BTreeSet<String>, depth: usize) -> Y {
    if !scope.is_empty() && r.gen_bool(0.15) {
        let names: Vec<&String> = scope.iter().collect();
        let mut m = Mapping::new();
        m.insert("type".into(), names.choose(r).unwrap().as_str().into());
        return Y::Mapping(m);
    }
    let mut y = to_yaml(n);
    let m = match &mut y {
        Y::Mapping(m) => m,
        _ => unreachable!(),
    };
    match n {
        S::Sub { map } => {
            let mut inner = scope.clone();
            let mut out = Mapping::new();
            let mut members: Vec<(Y, Y)> = Vec::new();
            let mut defs: Vec<(Y, Y)> = Vec::new();
            if depth < 5 {
                for _ in 0..*[0, 0, 1, 2].choose(r).unwrap() {
                    let name = NAMES.choose(r).unwrap();
                    let depth = r.gen_range(0..2);
                    let style = if r.gen() { Style::Tame } else { Style::Wild };
                    let body = gen_node(r, depth, style);
                    let key: Y = format!("typeDef {}", name).into();
                    if defs.iter().any(|d| d.0 == key) {
                        continue;
                    }
                    defs.push((key, render(r, &body, &inner, depth + 1)));
                    inner.insert(name.to_string());
                }
            }
            for (k, v) in sorted(map) {
                members.push((k.as_str().into(), render(r, v, &inner, depth + 1)));
            }
            if r.gen_bool(0.6) {
                out.insert("type".into(), "sub".into());
            }
            // definitions keep their order; members may come before, between or after
            let mut d = defs.into_iter().peekable();
            let mut e = members.into_iter().peekable();
            while d.peek().is_some() || e.peek().is_some() {
                let take_def = d.peek().is_some() && (e.peek().is_none() || r.gen_bool(0.6));
                let (k, v) = if take_def { d.next().unwrap() } else { e.next().unwrap() };
                out.insert(k, v);
            }
            *m = out;
        }
        S::Array { value_type, .. } | S::AnonMap { value_type, .. } | S::Optional { value_type, .. } => {
            let v = render(r, value_type, scope, depth + 1);
            m.insert("valueType".into(), v);
        }
        S::Variant { map, .. } => {
            for (k, v) in sorted(map) {
                let v = render(r, v, scope, depth + 1);
                m.insert(k.as_str().into(), v);
            }
        }
        _ => (),
    }
    y
}

fn junk(r: &mut StdRng) -> Y {
    match r.gen_range(0..18) {
        0 => Y::Null,
        1 => true.into(),
        2 => 0.into(),
        3 => (-1).into(),
        4 => 1.into(),
        5 => 2.into(),
        6 => 0.5.into(),
        7 => f64::NAN.into(),
        8 => f64::INFINITY.into(),
        9 => f64::NEG_INFINITY.into(),
        10 => u64::MAX.into(),
        11 => i64::MIN.into(),
        12 => "foo".into(),
        13 => "real".into(),
        14 => Y::Sequence(vec![]),
        15 => Y::Sequence(vec!["a".into(), "a".into()]),
        16 => Y::Mapping(Mapping::new()),
        _ => {
            let mut m = Mapping::new();
            m.insert("type".into(), "const".into());
            Y::Mapping(m)
        }
    }
}

fn key_junk(r: &mut StdRng) -> Y {
    match r.gen_range(0..24) {
        22 | 23 => {
            let v: Y = (*["a", "b", "type", "init", "typeDef t", "x"].choose(r).unwrap()).into();
            Y::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: v }))
        }
        0 => "typeDefault".into(),
        1 => "typeDef".into(),
        2 => "typeDef real".into(),
        3 => "typeDef  t".into(),
        4 => "typeDefs".into(),
        5 => "type".into(),
        6 => "init".into(),
        7 => "min".into(),
        8 => "max".into(),
        9 => "scale".into(),
        10 => "values".into(),
        11 => "valueType".into(),
        12 => "size".into(),
        13 => "minSize".into(),
        14 => "maxSize".into(),
        15 => "initSize".into(),
        16 => 3.into(),
        17 => Y::Null,
        18 => Y::Sequence(vec![1.into(), "x".into()]),
        19 => Y::Mapping(Mapping::new()),
        20 => "typeDef t".into(),
        _ => "unknown".into(),
    }
}

fn corrupt(r: &mut StdRng, y: &mut Y, depth: usize) {
    match y {
        Y::Mapping(m) => match r.gen_range(0..10) {
            0 => {
                let (k, v) = (key_junk(r), junk(r));
                m.insert(k, v);
            }
            1 => {
                let ks: Vec<Y> = m.keys().cloned().collect();
                if let Some(k) = ks.choose(r) {
                    m.remove(k);
                }
            }
            2 => {
                let ks: Vec<Y> = m.keys().cloned().collect();
                if let Some(k) = ks.choose(r) {
                    let j = junk(r);
                    m.insert(k.clone(), j);
                }
            }
            3 => {
                // relations between attributes: make two equal, or off by one
                let pairs = [("min", "max"), ("max", "min"), ("init", "min"), ("init", "max"), ("minSize", "maxSize"), ("initSize", "minSize"), ("initSize", "maxSize"), ("maxSize", "initSize")];
                let (a, b) = *pairs.choose(r).unwrap();
                if let Some(v) = m.get(b).cloned() {
                    let v = match (&v, r.gen_range(0..3)) {
                        (Y::Number(n), 0) if n.is_i64() => n.as_i64().unwrap().wrapping_add(1).into(),
                        (Y::Number(n), 1) if n.is_i64() => n.as_i64().unwrap().wrapping_sub(1).into(),
                        (Y::Number(n), 0) if n.is_f64() => f64::from_bits(n.as_f64().unwrap().to_bits().wrapping_add(1)).into(),
                        (Y::Number(n), 1) if n.is_f64() => f64::from_bits(n.as_f64().unwrap().to_bits().wrapping_sub(1)).into(),
                        (_, _) => v,
                    };
                    if m.contains_key(a) || r.gen() {
                        m.insert(a.into(), v);
                    }
                }
            }
            4 => {
                let ks: Vec<Y> = m.keys().cloned().collect();
                if let Some(k) = ks.choose(r) {
                    if let Some(v) = m.remove(k) {
                        let j = key_junk(r);
                        m.insert(j, v);
                    }
                }
            }
            5 => {
                for (k, vs) in [("scale", [0.0f64, -1.0, -0.0, 5e-324])] {
                    if m.contains_key(k) {
                        m.insert(k.into(), (*vs.choose(r).unwrap()).into());
                    }
                }
                if m.contains_key("size") {
                    m.insert("size".into(), r.gen_range(0..3).into());
                }
                if m.contains_key("values") {
                    let v = *["red", "a", "b"].choose(r).unwrap();
                    m.insert("values".into(), Y::Sequence(vec![v.into(); r.gen_range(0..4)]));
                    if r.gen() {
                        m.insert("init".into(), v.into());
                    }
                }
                if m.contains_key("maxSize") {
                    m.insert("maxSize".into(), r.gen_range(0..3).into());
                }
            }
            _ => {
                let ks: Vec<Y> = m.keys().cloned().collect();
                if let Some(k) = ks.choose(r) {
                    if depth < 8 {
                        corrupt(r, m.get_mut(k).unwrap(), depth + 1);
                    }
                }
            }
        },
        Y::Sequence(s) => {
            if r.gen() && !s.is_empty() {
                let i = r.gen_range(0..s.len());
                let j = if r.gen() { s[r.gen_range(0..s.len())].clone() } else { junk(r) };
                s[i] = j;
            } else {
                s.pop();
            }
        }
        _ => *y = junk(r),
    }
}

pub fn run_case(seed: u64, index: u64) {
    begin("specdoc", seed, index);
    tick();
    let mut r = rng_for("specdoc", seed, index);
    let style = if r.gen_bool(0.5) { Style::Wild } else { Style::Tame };
    let depth = r.gen_range(0..=3);
    let spec = gen_spec(&mut r, depth, style);
    let mut y = render(&mut r, &spec.0, &BTreeSet::new(), 0);
    let mut fp = 0u64;
    let mut ok = false;
    let doc = serde_yaml::to_string(&y).unwrap();
    ok |= check_text(&doc);
    fp ^= hash_str(&doc);
    for _ in 0..6 {
        let mut z = y.clone();
        for _ in 0..*[1, 1, 2, 3].choose(&mut r).unwrap() {
            corrupt(&mut r, &mut z, 0);
        }
        if let Ok(doc) = serde_yaml::to_string(&z) {
            ok |= check_text(&doc);
        }
        if r.gen_bool(0.2) {
            y = z;
        }
    }
    // byte-level damage
    let mut bytes = doc.clone().into_bytes();
    for _ in 0..r.gen_range(1..4) {
        let i = r.gen_range(0..bytes.len());
        match r.gen_range(0..3) {
            0 => {
                bytes.remove(i);
                if bytes.is_empty() {
                    bytes.push(b'a');
                }
            }
            1 => bytes[i] = *b":-{}[]!&*?|>'\"%@ \n\t0a".choose(&mut r).unwrap(),
            _ => bytes.insert(i, *b":-{}[]!&*?|>'\"%@ \n\t0a".choose(&mut r).unwrap()),
        }
    }
    if let Ok(t) = String::from_utf8(bytes) {
        check_text(&t);
    }
    mix_trace(fp);
    case("specdoc", if ok { Some(fp) } else { None }, || doc.clone());
}

/// Fixed documents: one per rule of the property.
pub fn fixed() {
    begin("specdoc-fixed", 0, 0);
    let docs = [
        "", "3", "[]", "{}", "a: 1", "? [a]\n: {type: bool, init: true}\n",
        "? !x 1\n: {type: bool, init: true}\n", "? !x {a: !y b}\n: {type: bool, init: true}\n",
        "? {a: 1}\n: {type: const}\n", "? {? [1]: 2}\n: {type: const}\n", "type: bool\ninit: true\n? !a {b: !c d}\n: 1\n",
        "type: variant\ninit: a\n? !a [!b c]\n: 1\n",
        "type: enum\ninit: a\nvalues: [a, a]\n", "type: enum\ninit: a\nvalues: [a, b, a]\n",
        "x: {type: bool, init: true}\n!t x: {type: const}\n", "!t x: {type: const}\n", "!t type: real\nx: {type: const}\n",
        "type: variant\ninit: a\na: {type: const}\n!t b: {type: const}\n", "type: variant\ninit: a\na: {type: const}\nb: {type: const}\n!t a: {type: bool, init: true}\n",
        "!t typeDef u: {type: const}\na: {type: u}\n", "type: const\n!t type: const\n",
        "typeDefault: {type: bool, init: true}\n", "typeDef: {type: bool, init: true}\na: {type: typeDef}\n",
        "typeDefault: {type: bool, init: true}\nb: {type: const}\n",
        "typeDef t: {type: bool, init: true}\na: {type: t}\nb: {typeDef t: {type: const}, c: {type: t}}\nd: {type: t}\n",
        "a: {type: t}\ntypeDef t: {type: bool, init: true}\n",
        "typeDef t: {type: u}\ntypeDef u: {type: bool, init: true}\na: {type: t}\n",
        "typeDef t: {type: const}\na: {typeDef t: {type: optional, initPresent: true, valueType: {type: t}}, b: {type: t}}\n",
        "typeDef t: {type: const}\n",
        "a: {typeDef t: {type: const}, b: {type: t}}\nc: {type: t}\n",
        "type: real\ninit: .nan\nscale: 1\n", "type: real\ninit: 0\nscale: .inf\n", "type: int\ninit: 0\nscale: .nan\n",
        "type: real\ninit: 0\nscale: 1\nmin: -.inf\n", "type: int\ninit: 5\nscale: 1\nmin: 5\nmax: 5\n",
        "type: array\nsize: 1\nvalueType: {type: const}\n", "type: array\nsize: 18446744073709551615\nvalueType: {type: const}\n",
        "type: anon map\ninitSize: 2\nminSize: 3\nvalueType: {type: const}\n",
        "type: anon map\ninitSize: 0\nmaxSize: 0\nvalueType: {type: const}\n",
        "type: anon map\ninitSize: 2\nminSize: 2\nmaxSize: 2\nvalueType: {type: const}\n",
        "type: sub\ntype: sub\na: {type: const}\n", "a: &x {type: const}\nb: *x\n", "a: *y\n",
        "type: [real]\n", "type: null\na: {type: const}\n", "type: \"\"\n",
        "type: variant\ninit: a\na: {type: const}\n", "type: variant\ninit: c\na: {type: const}\nb: {type: const}\n",
        "type: variant\ninit: type\na: {type: const}\nb: {type: const}\n",
        "type: int\ninit: 9223372036854775808\nscale: 1\n", "type: int\ninit: 1.0\nscale: 1\n",
    ];
    for d in docs {
        // initial values of huge arrays are not built here
        if d.contains("18446744073709551615") {
            describe(format!("document:\n{}", d));
            guarded(&["C10"], "parsing panics", || spec_util::from_yaml_str(d).is_ok());
            continue;
        }
        check_text(d);
    }
    case("specdoc-fixed", Some(1), || docs[17].to_string());
}
