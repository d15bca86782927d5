//! The specification functions of the contracts, executable.
use cambrian::spec::Node as S;
use cambrian::value::Node as V;
use std::collections::BTreeSet;

pub fn in_bounds_f(x: f64, min: Option<f64>, max: Option<f64>) -> bool {
    x.is_finite() && min.map_or(true, |m| x >= m) && max.map_or(true, |m| x <= m)
}
pub fn in_bounds_i(x: i64, min: Option<i64>, max: Option<i64>) -> bool {
    min.map_or(true, |m| x >= m) && max.map_or(true, |m| x <= m)
}

/// C10: well-formed parameter space.
pub fn wf(s: &S) -> Result<(), String> {
    match s {
        S::Real { init, scale, min, max } => {
            if !init.is_finite() || !scale.is_finite() || min.map_or(false, |x| !x.is_finite()) || max.map_or(false, |x| !x.is_finite()) {
                return Err(format!("non-finite number in {:?}", s));
            }
            if *scale <= 0.0 {
                return Err(format!("scale not strictly positive in {:?}", s));
            }
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return Err(format!("min >= max in {:?}", s));
                }
            }
            if !in_bounds_f(*init, *min, *max) {
                return Err(format!("init out of bounds in {:?}", s));
            }
            Ok(())
        }
        S::Int { init, scale, min, max } => {
            if !scale.is_finite() || *scale <= 0.0 {
                return Err(format!("bad scale in {:?}", s));
            }
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return Err(format!("min >= max in {:?}", s));
                }
            }
            if !in_bounds_i(*init, *min, *max) {
                return Err(format!("init out of bounds in {:?}", s));
            }
            Ok(())
        }
        S::Bool { .. } | S::Const => Ok(()),
        S::Sub { map } => {
            if map.is_empty() {
                return Err("empty sub".into());
            }
            map.values().try_for_each(|v| wf(v))
        }
        S::Array { value_type, size } => {
            if *size < 2 {
                return Err(format!("array size {}", size));
            }
            wf(value_type)
        }
        S::AnonMap { value_type, init_size, min_size, max_size } => {
            if let (Some(a), Some(b)) = (min_size, max_size) {
                if a >= b {
                    return Err(format!("min size {} >= max size {}", a, b));
                }
            }
            if *max_size == Some(0) {
                return Err("max size 0".into());
            }
            if min_size.map_or(false, |m| *init_size < m) || max_size.map_or(false, |m| *init_size > m) {
                return Err(format!("init size {} outside {:?}..{:?}", init_size, min_size, max_size));
            }
            wf(value_type)
        }
        S::Variant { map, init } => {
            if map.len() < 2 {
                return Err("less than two variant options".into());
            }
            if !map.contains_key(init) {
                return Err("variant init not an option".into());
            }
            map.values().try_for_each(|v| wf(v))
        }
        S::Enum { values, init } => {
            if values.iter().collect::<BTreeSet<_>>().len() < 2 {
                return Err(format!("less than two distinct enum values: {:?}", values));
            }
            if !values.contains(init) {
                return Err("enum init not a value".into());
            }
            Ok(())
        }
        S::Optional { value_type, .. } => wf(value_type),
    }
}

/// C01: conforms(spec, value).
pub fn conforms(s: &S, v: &V) -> Result<(), String> {
    match (s, v) {
        (S::Real { min, max, .. }, V::Real(x)) => {
            if in_bounds_f(*x, *min, *max) {
                Ok(())
            } else {
                Err(format!("real {:e} not finite or outside {:?}..{:?}", x, min, max))
            }
        }
        (S::Int { min, max, .. }, V::Int(x)) => {
            if in_bounds_i(*x, *min, *max) {
                Ok(())
            } else {
                Err(format!("int {} outside {:?}..{:?}", x, min, max))
            }
        }
        (S::Bool { .. }, V::Bool(_)) => Ok(()),
        (S::Const, V::Const) => Ok(()),
        (S::Sub { map }, V::Sub(vm)) => {
            if map.len() != vm.len() {
                return Err(format!("sub has keys {:?}, declared {:?}", keys(vm), keys(map)));
            }
            for (k, cs) in map {
                match vm.get(k) {
                    None => return Err(format!("sub lacks key {:?}", k)),
                    Some(cv) => conforms(cs, cv).map_err(|e| format!("{}: {}", k, e))?,
                }
            }
            Ok(())
        }
        (S::Array { value_type, size }, V::Array(es)) => {
            if es.len() != *size {
                return Err(format!("array of length {} where {} declared", es.len(), size));
            }
            es.iter().try_for_each(|e| conforms(value_type, e))
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(m)) => {
            if min_size.map_or(false, |b| m.len() < b) || max_size.map_or(false, |b| m.len() > b) {
                return Err(format!("map of size {} outside {:?}..{:?}", m.len(), min_size, max_size));
            }
            m.values().try_for_each(|e| conforms(value_type, e))
        }
        (S::Variant { map, .. }, V::Variant(name, inner)) => match map.get(name) {
            None => Err(format!("unknown variant {:?}", name)),
            Some(cs) => conforms(cs, inner),
        },
        (S::Enum { values, .. }, V::Enum(x)) => {
            if values.contains(x) {
                Ok(())
            } else {
                Err(format!("unknown enum value {:?}", x))
            }
        }
        (S::Optional { .. }, V::Optional(None)) => Ok(()),
        (S::Optional { value_type, .. }, V::Optional(Some(x))) => conforms(value_type, x),
        _ => Err(format!("{:?} is no value of {:?}", v, s)),
    }
}

fn keys<K: Ord + Clone, T>(m: &rustc_hash::FxHashMap<K, T>) -> Vec<K> {
    let mut v: Vec<K> = m.keys().cloned().collect();
    v.sort();
    v
}

/// conforms() on the JSON form.
pub fn conforms_json(s: &S, j: &serde_json::Value) -> Result<(), String> {
    use serde_json::Value as J;
    match (s, j) {
        (S::Real { min, max, .. }, J::Number(n)) => match n.as_f64() {
            Some(x) if in_bounds_f(x, *min, *max) => Ok(()),
            _ => Err(format!("real {} outside {:?}..{:?}", n, min, max)),
        },
        (S::Int { min, max, .. }, J::Number(n)) => match n.as_i64() {
            Some(x) if in_bounds_i(x, *min, *max) => Ok(()),
            _ => Err(format!("int {} outside {:?}..{:?}", n, min, max)),
        },
        (S::Bool { .. }, J::Bool(_)) => Ok(()),
        (S::Const, J::Null) => Ok(()),
        (S::Sub { map }, J::Object(o)) => {
            if o.len() != map.len() {
                return Err(format!("sub keys {:?} vs declared {:?}", o.keys().collect::<Vec<_>>(), keys(map)));
            }
            for (k, cs) in map {
                match o.get(k) {
                    None => return Err(format!("sub lacks key {:?}", k)),
                    Some(cj) => conforms_json(cs, cj).map_err(|e| format!("{}: {}", k, e))?,
                }
            }
            Ok(())
        }
        (S::Array { value_type, size }, J::Array(a)) => {
            if a.len() != *size {
                return Err(format!("array of length {} where {} declared", a.len(), size));
            }
            a.iter().try_for_each(|e| conforms_json(value_type, e))
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Object(o)) => {
            if min_size.map_or(false, |b| o.len() < b) || max_size.map_or(false, |b| o.len() > b) {
                return Err(format!("map of size {} outside {:?}..{:?}", o.len(), min_size, max_size));
            }
            for (k, e) in o {
                if k.parse::<usize>().is_err() {
                    return Err(format!("map key {:?}", k));
                }
                conforms_json(value_type, e)?;
            }
            Ok(())
        }
        (S::Variant { map, .. }, J::Object(o)) if o.len() == 1 => {
            let (name, inner) = o.iter().next().unwrap();
            match map.get(name) {
                None => Err(format!("unknown variant {:?}", name)),
                Some(cs) => conforms_json(cs, inner),
            }
        }
        (S::Enum { values, .. }, J::String(x)) => {
            if values.contains(x) {
                Ok(())
            } else {
                Err(format!("unknown enum value {:?}", x))
            }
        }
        (S::Optional { .. }, J::Null) => Ok(()),
        (S::Optional { value_type, .. }, x) => conforms_json(value_type, x),
        _ => Err(format!("{} is no value of {:?}", j, s)),
    }
}

/// What a guess document must satisfy to be accepted (C11). As conforms_json, plus the
/// array notation for resizable maps; keys are compared as numbers.
pub fn guess_ok(s: &S, j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (s, j) {
        (S::Sub { map }, J::Object(o)) => o.len() == map.len() && map.iter().all(|(k, cs)| o.get(k).map_or(false, |cj| guess_ok(cs, cj))),
        (S::Array { value_type, size }, J::Array(a)) => a.len() == *size && a.iter().all(|e| guess_ok(value_type, e)),
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Array(a)) => {
            min_size.map_or(true, |b| a.len() >= b) && max_size.map_or(true, |b| a.len() <= b) && a.iter().all(|e| guess_ok(value_type, e))
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Object(o)) => {
            let ks: BTreeSet<Option<usize>> = o.keys().map(|k| k.parse().ok()).collect();
            !ks.contains(&None)
                && min_size.map_or(true, |b| ks.len() >= b)
                && max_size.map_or(true, |b| ks.len() <= b)
                && o.values().all(|e| guess_ok(value_type, e))
        }
        (S::Variant { map, .. }, J::Object(o)) if o.len() == 1 => {
            let (name, inner) = o.iter().next().unwrap();
            map.get(name).map_or(false, |cs| guess_ok(cs, inner))
        }
        (S::Optional { value_type, .. }, x) => x.is_null() || guess_ok(value_type, x),
        _ => conforms_json(s, j).is_ok(),
    }
}

/// Two documents of different spelling with the same keys ("01" and "1"): neither acceptance
/// nor rejection is required of them.
pub fn has_colliding_keys(s: &S, j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (s, j) {
        (S::Sub { map }, J::Object(o)) => map.iter().any(|(k, cs)| o.get(k).map_or(false, |cj| has_colliding_keys(cs, cj))),
        (S::Array { value_type, .. }, J::Array(a)) | (S::AnonMap { value_type, .. }, J::Array(a)) => a.iter().any(|e| has_colliding_keys(value_type, e)),
        (S::AnonMap { value_type, .. }, J::Object(o)) => {
            let ks: Vec<usize> = o.keys().filter_map(|k| k.parse().ok()).collect();
            ks.iter().collect::<BTreeSet<_>>().len() != ks.len() || o.values().any(|e| has_colliding_keys(value_type, e))
        }
        (S::Variant { map, .. }, J::Object(o)) => o.iter().any(|(k, e)| map.get(k).map_or(false, |cs| has_colliding_keys(cs, e))),
        (S::Optional { value_type, .. }, x) => has_colliding_keys(value_type, x),
        _ => false,
    }
}

/// Bit-exact equality (so that -0.0 and 0.0 differ).
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Real(x), V::Real(y)) => x.to_bits() == y.to_bits(),
        (V::Sub(x), V::Sub(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        (V::AnonMap(x), V::AnonMap(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        (V::Variant(n, x), V::Variant(m, y)) => n == m && same(x, y),
        (V::Optional(Some(x)), V::Optional(Some(y))) => same(x, y),
        _ => a == b,
    }
}

/// Equality up to the sign of zero.
pub fn equal(a: &V, b: &V) -> bool {
    a == b
}

/// C12: provenance.
pub fn recomb(s: &S, ps: &[&V], c: &V) -> Result<(), String> {
    if ps.is_empty() {
        return Err("no parent shares this position".into());
    }
    match (s, c) {
        (S::Const, V::Const) => Ok(()),
        (S::Real { .. } | S::Int { .. } | S::Bool { .. } | S::Enum { .. }, _) => {
            if ps.iter().any(|p| equal(p, c)) {
                Ok(())
            } else {
                Err(format!("leaf {:?} from none of the parents {:?}", c, ps))
            }
        }
        (S::Sub { map }, V::Sub(cm)) => {
            if cm.len() != map.len() {
                return Err("sub keys differ".into());
            }
            for (k, cs) in map {
                let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Sub(m) = p { m.get(k).map(|b| &**b) } else { None }).collect();
                let cv = cm.get(k).ok_or_else(|| format!("sub lacks {:?}", k))?;
                recomb(cs, &sub, cv).map_err(|e| format!("{}: {}", k, e))?;
            }
            Ok(())
        }
        (S::Array { value_type, size }, V::Array(es)) => {
            if es.len() != *size {
                return Err(format!("array length {}", es.len()));
            }
            for (i, e) in es.iter().enumerate() {
                let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Array(m) = p { m.get(i).map(|b| &**b) } else { None }).collect();
                recomb(value_type, &sub, e).map_err(|x| format!("[{}]: {}", i, x))?;
            }
            Ok(())
        }
        (S::AnonMap { value_type, .. }, V::AnonMap(cm)) => {
            for (k, e) in cm {
                let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::AnonMap(m) = p { m.get(k).map(|b| &**b) } else { None }).collect();
                if sub.is_empty() {
                    return Err(format!("map key {} in no parent", k));
                }
                recomb(value_type, &sub, e).map_err(|x| format!("{{{}}}: {}", k, x))?;
            }
            Ok(())
        }
        (S::Variant { map, .. }, V::Variant(name, inner)) => {
            let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Variant(n, b) = p { if n == name { Some(&**b) } else { None } } else { None }).collect();
            if sub.is_empty() {
                return Err(format!("variant {:?} chosen by no parent", name));
            }
            let cs = map.get(name).ok_or("unknown variant")?;
            recomb(cs, &sub, inner).map_err(|x| format!("<{}>: {}", name, x))
        }
        (S::Optional { .. }, V::Optional(None)) => {
            if ps.iter().any(|p| matches!(p, V::Optional(None))) {
                Ok(())
            } else {
                Err("absence from no parent".into())
            }
        }
        (S::Optional { value_type, .. }, V::Optional(Some(c))) => {
            let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Optional(Some(b)) = p { Some(&**b) } else { None }).collect();
            if sub.is_empty() {
                return Err("presence from no parent".into());
            }
            recomb(value_type, &sub, c).map_err(|x| format!("?: {}", x))
        }
        _ => Err(format!("{:?} is no value of {:?}", c, s)),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum P {
    Zero,
    One,
    Other,
}

/// C13 (and the liveness half of C17): what mutate(v) may be, at mutation probability p.
/// `live` collects violations of "really varied" separately.
pub fn mutated(s: &S, v: &V, w: &V, p: P, live: &mut Vec<String>) -> Result<(), String> {
    if p == P::Zero {
        return if equal(v, w) { Ok(()) } else { Err(format!("probability 0 changed {:?} to {:?}", v, w)) };
    }
    match (s, v, w) {
        (S::Real { .. }, V::Real(_), V::Real(_)) | (S::Int { .. }, V::Int(_), V::Int(_)) | (S::Const, V::Const, V::Const) => Ok(()),
        (S::Bool { .. }, V::Bool(a), V::Bool(b)) => {
            if p == P::One && a == b {
                live.push("bool not changed at probability 1".into());
            }
            Ok(())
        }
        (S::Enum { .. }, V::Enum(a), V::Enum(b)) => {
            if p == P::One && a == b {
                live.push(format!("enum {:?} not changed at probability 1", a));
            }
            Ok(())
        }
        (S::Sub { map }, V::Sub(a), V::Sub(b)) => {
            for (k, cs) in map {
                match (a.get(k), b.get(k)) {
                    (Some(x), Some(y)) => mutated(cs, x, y, p, live).map_err(|e| format!("{}: {}", k, e))?,
                    _ => return Err(format!("sub key {:?} lost", k)),
                }
            }
            Ok(())
        }
        (S::Array { value_type, .. }, V::Array(a), V::Array(b)) => {
            if a.len() != b.len() {
                return Err("array length changed".into());
            }
            a.iter().zip(b).try_for_each(|(x, y)| mutated(value_type, x, y, p, live))
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(a), V::AnonMap(b)) => {
            let added = b.keys().filter(|k| !a.contains_key(k)).count();
            let removed = a.keys().filter(|k| !b.contains_key(k)).count();
            if added + removed > 1 {
                return Err(format!("map resized by {} added and {} removed elements", added, removed));
            }
            for (k, x) in a {
                if let Some(y) = b.get(k) {
                    mutated(value_type, x, y, p, live).map_err(|e| format!("{{{}}}: {}", k, e))?;
                }
            }
            let pinned = min_size.map_or(false, |m| a.len() <= m) && max_size.map_or(false, |m| a.len() >= m);
            if p == P::One && added + removed == 0 && !pinned {
                return Err(format!("map of size {} not resized at probability 1 (keys {:?} -> {:?})", a.len(), keys(a), keys(b)));
            }
            Ok(())
        }
        (S::Variant { map, .. }, V::Variant(n, x), V::Variant(m, y)) => {
            if n == m {
                if p == P::One {
                    live.push(format!("variant {:?} not switched at probability 1", n));
                }
                mutated(&map[n], x, y, p, live)
            } else {
                let cs = map.get(m).ok_or_else(|| format!("unknown variant {:?}", m))?;
                mutated(cs, &initial(cs), y, p, live).map_err(|e| format!("<{} from its initial value>: {}", m, e))?;
                // real/int leaves of the fresh part: see fresh_leaves
                Ok(())
            }
        }
        (S::Optional { .. }, V::Optional(None), V::Optional(None)) => {
            if p == P::One {
                live.push("absent optional not materialised at probability 1".into());
            }
            Ok(())
        }
        (S::Optional { .. }, V::Optional(Some(_)), V::Optional(None)) => Ok(()),
        (S::Optional { value_type, .. }, V::Optional(None), V::Optional(Some(y))) => {
            mutated(value_type, &initial(value_type), y, p, live).map_err(|e| format!("optional from its initial value: {}", e))
        }
        (S::Optional { value_type, .. }, V::Optional(Some(x)), V::Optional(Some(y))) => {
            if p == P::One {
                live.push("present optional not removed at probability 1".into());
            }
            mutated(value_type, x, y, p, live)
        }
        _ => Err(format!("{:?} is no value of {:?}", w, s)),
    }
}

/// Does the spec contain a real or int leaf / anything that can vary?
pub fn has_leaf(s: &S) -> bool {
    match s {
        S::Const => false,
        S::Real { .. } | S::Int { .. } | S::Bool { .. } | S::Enum { .. } => true,
        S::Sub { map } => map.values().any(|v| has_leaf(v)),
        S::Variant { .. } | S::Optional { .. } | S::AnonMap { .. } => true,
        S::Array { value_type, .. } => has_leaf(value_type),
    }
}

/// The declared initial value (written independently of spec.rs).
pub fn initial(s: &S) -> V {
    match s {
        S::Real { init, .. } => V::Real(*init),
        S::Int { init, .. } => V::Int(*init),
        S::Bool { init } => V::Bool(*init),
        S::Enum { init, .. } => V::Enum(init.clone()),
        S::Const => V::Const,
        S::Sub { map } => V::Sub(map.iter().map(|(k, c)| (k.clone(), Box::new(initial(c)))).collect()),
        S::Array { value_type, size } => V::Array((0..*size).map(|_| Box::new(initial(value_type))).collect()),
        S::AnonMap { value_type, init_size, .. } => V::AnonMap((0..*init_size).map(|k| (k, Box::new(initial(value_type)))).collect()),
        S::Variant { map, init } => V::Variant(init.clone(), Box::new(initial(&map[init]))),
        S::Optional { value_type, init_present } => V::Optional(if *init_present { Some(Box::new(initial(value_type))) } else { None }),
    }
}
