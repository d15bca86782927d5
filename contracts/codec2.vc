%mod js
%raw
use serde_json::num_f64;
/// document `j` denotes a value conforming to `s` (C11: exactly these are accepted)
pub open spec fn pset(o: Map<Seq<char>, J>) -> Set<usize> { o.dom().filter(|s: Seq<char>| undec(s) is Some).map(|s: Seq<char>| undec(s)->Some_0) }
pub broadcast proof fn lemma_pset(o: Map<Seq<char>, J>, k: usize)
    ensures #[trigger] pset(o).contains(k) <==> exists|s: Seq<char>| #[trigger] o.dom().contains(s) && undec(s) == Some(k)
{
    let f = o.dom().filter(|s: Seq<char>| undec(s) is Some);
    let g = |s: Seq<char>| undec(s)->Some_0;
    if pset(o).contains(k) {
        let s = choose|s: Seq<char>| f.contains(s) && g(s) == k;
        assert(f.contains(s) && g(s) == k);
        assert(o.dom().contains(s));
    }
    if exists|s: Seq<char>| #[trigger] o.dom().contains(s) && undec(s) == Some(k) {
        let s = choose|s: Seq<char>| #[trigger] o.dom().contains(s) && undec(s) == Some(k);
        assert(f.contains(s) && g(s) == k);
    }
}
pub open spec fn ok_json(s: S, j: J) -> bool
    decreases s
{
    match (s, j) {
        (S::Real { min, max, .. }, J::Number(n)) => f_in(num_f64(n@), min, max),
        (S::Int { min, max, .. }, J::Number(n)) => n@ is I && i_in(n@->I_0, min, max),
        (S::Bool { .. }, J::Bool(_)) => true,
        (S::Sub { map }, J::Object(o)) => map@.dom() =~= o@.dom() && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> ok_json(*map@[k], o@[k]),
        (S::Array { value_type, size }, J::Array(a)) => a@.len() == size && forall|i: int| 0 <= i < a@.len() ==> ok_json(*value_type, #[trigger] a@[i]),
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Array(a)) => n_in(a@.len() as int, min_size, max_size)
            && forall|i: int| 0 <= i < a@.len() ==> ok_json(*value_type, #[trigger] a@[i]),
        (S::AnonMap { value_type, min_size, max_size, .. }, J::Object(o)) => n_in(pset(o@).len() as int, min_size, max_size)
            && (forall|t: Seq<char>| #[trigger] o@.dom().contains(t) ==> undec(t) is Some && ok_json(*value_type, o@[t])),
        (S::Variant { map, .. }, J::Object(o)) => o@.dom().len() == 1 && forall|k: Seq<char>| #[trigger] o@.dom().contains(k) ==> map@.dom().contains(k) && ok_json(*map@[k], o@[k]),
        (S::Enum { values, .. }, J::String(t)) => exists|i: int| 0 <= i < values@.len() && (#[trigger] values@[i])@ == t@,
        (S::Optional { value_type, .. }, _) => j is Null || ok_json(*value_type, j),
        (S::Const, J::Null) => true,
        _ => false,
    }
}
/// `v` is what the accepted document `j` denotes under `s`
pub open spec fn rel(s: S, j: J, v: V) -> bool
    decreases s
{
    match (s, j, v) {
        (S::Real { .. }, J::Number(n), V::Real(x)) => x == num_f64(n@) && isfin(x),
        (S::Int { .. }, J::Number(n), V::Int(i)) => n@ == NumV::I(i),
        (S::Bool { .. }, J::Bool(a), V::Bool(b)) => a == b,
        (S::Sub { map }, J::Object(o), V::Sub(m)) => map@.dom() =~= m@.dom() && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> rel(*map@[k], o@[k], *m@[k]),
        (S::Array { value_type, .. }, J::Array(a), V::Array(e)) => a@.len() == e@.len() && forall|i: int| 0 <= i < e@.len() ==> rel(*value_type, a@[i], *#[trigger] e@[i]),
        (S::AnonMap { value_type, .. }, J::Array(a), V::AnonMap(m)) => m@.dom().len() == a@.len() && forall|k: usize| #[trigger] m@.dom().contains(k) ==> k < a@.len() && rel(*value_type, a@[k as int], *m@[k]),
        (S::AnonMap { value_type, .. }, J::Object(o), V::AnonMap(m)) => m@.dom() =~= pset(o@)
            && forall|k: usize| #[trigger] m@.dom().contains(k) ==> exists|t: Seq<char>| #[trigger] o@.dom().contains(t) && undec(t) == Some(k) && rel(*value_type, o@[t], *m@[k]),
        (S::Variant { map, .. }, J::Object(o), V::Variant(n, x)) => o@.dom().contains(n@) && map@.dom().contains(n@) && rel(*map@[n@], o@[n@], *x),
        (S::Enum { .. }, J::String(t), V::Enum(n)) => t@ == n@,
        (S::Optional { .. }, J::Null, V::Optional(None)) => true,
        (S::Optional { value_type, .. }, _, V::Optional(Some(x))) => !(j is Null) && rel(*value_type, j, *x),
        (S::Const, J::Null, V::Const) => true,
        _ => false,
    }
}
pub proof fn lemma_ok_conf(s: S, j: J, v: V)
    requires ok_json(s, j), rel(s, j, v)
    ensures conf(s, v)
    decreases s
{
    match (s, j, v) {
        (S::Sub { map }, J::Object(o), V::Sub(m)) => { assert forall|k: Seq<char>| #[trigger] map@.dom().contains(k) implies conf(*map@[k], *m@[k]) by { lemma_ok_conf(*map@[k], o@[k], *m@[k]); } }
        (S::Array { value_type, .. }, J::Array(a), V::Array(e)) => { assert forall|i: int| 0 <= i < e@.len() implies conf(*value_type, *#[trigger] e@[i]) by { lemma_ok_conf(*value_type, a@[i], *e@[i]); } }
        (S::AnonMap { value_type, .. }, J::Array(a), V::AnonMap(m)) => { assert forall|k: usize| #[trigger] m@.dom().contains(k) implies conf(*value_type, *m@[k]) by { lemma_ok_conf(*value_type, a@[k as int], *m@[k]); } }
        (S::AnonMap { value_type, .. }, J::Object(o), V::AnonMap(m)) => { assert forall|k: usize| #[trigger] m@.dom().contains(k) implies conf(*value_type, *m@[k]) by {
            let t = choose|t: Seq<char>| #[trigger] o@.dom().contains(t) && undec(t) == Some(k) && rel(*value_type, o@[t], *m@[k]);
            lemma_ok_conf(*value_type, o@[t], *m@[k]); } }
        (S::Variant { map, .. }, J::Object(o), V::Variant(n, x)) => { lemma_ok_conf(*map@[n@], o@[n@], *x); }
        (S::Optional { value_type, .. }, _, V::Optional(Some(x))) => { lemma_ok_conf(*value_type, j, *x); }
        _ => {}
    }
}
pub open spec fn arr_ok(vt: S, size: usize, j: J) -> bool {
    match j { J::Array(a) => a@.len() == size && forall|i: int| 0 <= i < a@.len() ==> ok_json(vt, #[trigger] a@[i]), _ => false }
}
pub open spec fn arr_rel(vt: S, j: J, v: V) -> bool {
    match (j, v) { (J::Array(a), V::Array(e)) => a@.len() == e@.len() && forall|i: int| 0 <= i < e@.len() ==> rel(vt, a@[i], *#[trigger] e@[i]), _ => false }
}
pub open spec fn am_ok(vt: S, min_size: Option<usize>, max_size: Option<usize>, j: J) -> bool {
    match j {
        J::Array(a) => n_in(a@.len() as int, min_size, max_size) && forall|i: int| 0 <= i < a@.len() ==> ok_json(vt, #[trigger] a@[i]),
        J::Object(o) => n_in(pset(o@).len() as int, min_size, max_size)
            && (forall|t: Seq<char>| #[trigger] o@.dom().contains(t) ==> undec(t) is Some && ok_json(vt, o@[t])),
        _ => false,
    }
}
pub open spec fn am_rel(vt: S, j: J, v: V) -> bool {
    match (j, v) {
        (J::Array(a), V::AnonMap(m)) => m@.dom().len() == a@.len() && forall|k: usize| #[trigger] m@.dom().contains(k) ==> k < a@.len() && rel(vt, a@[k as int], *m@[k]),
        (J::Object(o), V::AnonMap(m)) => m@.dom() =~= pset(o@)
            && forall|k: usize| #[trigger] m@.dom().contains(k) ==> exists|t: Seq<char>| #[trigger] o@.dom().contains(t) && undec(t) == Some(k) && rel(vt, o@[t], *m@[k]),
        _ => false,
    }
}
%mod value_util src/value_util.rs
%use crate::sp::*
%use crate::js::*
%fn from_json_str(a_t, a_s)
    requires wf(a_s.0),
    ensures match r {
        Ok(v) => serde_json::parsed(a_t@) is Some && ok_json(a_s.0, serde_json::parsed(a_t@)->Some_0) && rel(a_s.0, serde_json::parsed(a_t@)->Some_0, v.0) && conf(a_s.0, v.0),
        Err(_) => serde_json::parsed(a_t@) is None || !ok_json(a_s.0, serde_json::parsed(a_t@)->Some_0),
    },
%fn from_json_value(a_j, a_s)
    requires wf(a_s.0),
    ensures match r {
        Ok(v) => ok_json(a_s.0, *a_j) && rel(a_s.0, *a_j, v.0) && conf(a_s.0, v.0),
        Err(_) => !ok_json(a_s.0, *a_j),
    },
%at end
    proof { if r is Ok { lemma_ok_conf(a_s.0, *a_j, r->Ok_0.0); } }
%fn build_node(a_j, a_s, a_p)
    requires wf(*a_s),
    ensures match r { Ok(v) => ok_json(*a_s, *a_j) && rel(*a_s, *a_j, v), Err(_) => !ok_json(*a_s, *a_j) },
    decreases a_s, 1int,
%fn build_sub(a_j, a_map, a_p)
    requires wf(crate::spec::Node::Sub { map: *a_map }),
    ensures match r { Ok(v) => ok_json(crate::spec::Node::Sub { map: *a_map }, *a_j) && rel(crate::spec::Node::Sub { map: *a_map }, *a_j, v), Err(_) => !ok_json(crate::spec::Node::Sub { map: *a_map }, *a_j) },
    decreases a_map, 0int,
%loop 0 Option<&String>
    a_j is Object, enumerates($all, a_j->Object_0@),
    match $out { Some(k) => a_j->Object_0@.dom().contains(k@) && !a_map@.dom().contains(k@), None => forall|i: int| 0 <= i < $pos ==> a_map@.dom().contains((#[trigger] $all[i]).0@) },
%loop 1 HashMap<String, Box<Node>>
    a_j is Object, enumerates($all, a_map@), forall|k: Seq<char>| #[trigger] a_j->Object_0@.dom().contains(k) ==> a_map@.dom().contains(k),
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) <==> a_map@.dom().contains(k) && kidx($all, k) < $pos,
    forall|k: Seq<char>| #[trigger] a_map@.dom().contains(k) && kidx($all, k) < $pos ==> a_j->Object_0@.dom().contains(k),
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) ==> ok_json(*a_map@[k], a_j->Object_0@[k]) && rel(*a_map@[k], a_j->Object_0@[k], *$out@[k]),
%at afterloop 1
    assert(a_map@.dom() =~= $out@.dom());
    assert(a_map@.dom() =~= a_j->Object_0@.dom());
%fn build_array(a_j, a_vt, a_size, a_p)
    requires wf(*a_vt),
    ensures match r { Ok(v) => arr_ok(*a_vt, a_size, *a_j) && arr_rel(*a_vt, *a_j, v), Err(_) => !arr_ok(*a_vt, a_size, *a_j) },
    decreases a_vt, 2int,
%loop 0 Vec<Box<Node>>
    a_j is Array, seq_refs($all, a_j->Array_0@), $out@.len() == $pos, a_j->Array_0@.len() == a_size,
    forall|i: int| 0 <= i < $pos ==> ok_json(*a_vt, #[trigger] a_j->Array_0@[i]),
    forall|i: int| 0 <= i < $out@.len() ==> rel(*a_vt, a_j->Array_0@[i], *#[trigger] $out@[i]),
%fn build_anon_map(a_j, a_vt, a_min, a_max, a_p)
    requires wf(*a_vt), a_min is Some && a_max is Some ==> a_min->Some_0 < a_max->Some_0,
    ensures match r { Ok(v) => am_ok(*a_vt, a_min, a_max, *a_j) && am_rel(*a_vt, *a_j, v), Err(_) => !am_ok(*a_vt, a_min, a_max, *a_j) },
    decreases a_vt, 2int,
%loop 0 HashMap<usize, Box<Node>>
    a_j is Array, seq_refs($all, a_j->Array_0@), $out@.dom().len() == $pos,
    forall|i: int| 0 <= i < $pos ==> ok_json(*a_vt, #[trigger] a_j->Array_0@[i]),
    forall|k: usize| #[trigger] $out@.dom().contains(k) ==> k < $pos && rel(*a_vt, a_j->Array_0@[k as int], *$out@[k]),
%loop 1 HashMap<usize, Box<Node>>
    a_j is Object, enumerates($all, a_j->Object_0@),
    forall|t: Seq<char>| #[trigger] a_j->Object_0@.dom().contains(t) && kidx($all, t) < $pos ==> undec(t) is Some && $out@.dom().contains(undec(t)->Some_0) && ok_json(*a_vt, a_j->Object_0@[t]),
    forall|k: usize| #[trigger] $out@.dom().contains(k) ==> exists|t: Seq<char>| #[trigger] a_j->Object_0@.dom().contains(t) && undec(t) == Some(k) && rel(*a_vt, a_j->Object_0@[t], *$out@[k]),
%at afterloop 1
    broadcast use lemma_pset;
    assert($out@.dom() =~= pset(a_j->Object_0@));
