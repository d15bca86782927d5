%% C10: the spec parser
%mod yam
%use broadcast serde_yaml::ax_ymap_height, serde_yaml::ax_yval_height
%raw
// What a spec document denotes: `den` maps a YAML value and the type definitions in scope to the
// parameter space it describes, or to None if the document breaks a rule. It is a function of the
// document alone, so that the contracts determine the parser's answer on every input.
use crate::spec::Node as S;
use serde_yaml::{Value as Y, Mapping};
#[allow(unused_imports)] use serde_yaml::{yattr, yidx, yfind, untag, yf64, yi64, yu64, yparsed};
use vstd::map::Map;

/// mirror of `spec::Node` without memory layout: strings and maps as mathematical objects
pub enum G {
    Real { init: f64, scale: f64, min: Option<f64>, max: Option<f64> },
    Int { init: i64, scale: f64, min: Option<i64>, max: Option<i64> },
    Bool { init: bool },
    Sub { map: Map<Seq<char>, G> },
    Array { value_type: Box<G>, size: usize },
    AnonMap { value_type: Box<G>, init_size: usize, min_size: Option<usize>, max_size: Option<usize> },
    Variant { map: Map<Seq<char>, G>, init: Seq<char> },
    Enum { values: Seq<Seq<char>>, init: Seq<char> },
    Optional { value_type: Box<G>, init_present: bool },
    Const,
}
pub type Defs = Map<Seq<char>, G>;
pub open spec fn abs(s: S) -> G
    decreases s
{
    match s {
        S::Real { init, scale, min, max } => G::Real { init, scale, min, max },
        S::Int { init, scale, min, max } => G::Int { init, scale, min, max },
        S::Bool { init } => G::Bool { init },
        S::Sub { map } => G::Sub { map: Map::new(map@.dom(), |k: Seq<char>| if map@.dom().contains(k) { abs(*map@[k]) } else { G::Const }) },
        S::Array { value_type, size } => G::Array { value_type: Box::new(abs(*value_type)), size },
        S::AnonMap { value_type, init_size, min_size, max_size } => G::AnonMap { value_type: Box::new(abs(*value_type)), init_size, min_size, max_size },
        S::Variant { map, init } => G::Variant { map: Map::new(map@.dom(), |k: Seq<char>| if map@.dom().contains(k) { abs(*map@[k]) } else { G::Const }), init: init@ },
        S::Enum { values, init } => G::Enum { values: Seq::new(values@.len(), |i: int| values@[i]@), init: init@ },
        S::Optional { value_type, init_present } => G::Optional { value_type: Box::new(abs(*value_type)), init_present },
        S::Const => G::Const,
    }
}
/// the definitions a scope map stands for
pub open spec fn defs(m: HashMap<String, S>) -> Defs { Map::new(m@.dom(), |k: Seq<char>| abs(m@[k])) }
pub open spec fn boxed(m: HashMap<String, Box<S>>) -> Defs { Map::new(m@.dom(), |k: Seq<char>| abs(*m@[k])) }
pub open spec fn defs_wf(m: HashMap<String, S>) -> bool { forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> crate::sp::wf(m@[k]) }
pub open spec fn boxed_wf(m: HashMap<String, Box<S>>) -> bool { forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> crate::sp::wf(*m@[k]) }

// ---- attributes; the outer None is a rule broken
pub open spec fn a_str(m: Mapping, k: Seq<char>) -> Option<Option<Seq<char>>> {
    match yattr(m, k) { None => Some(None), Some(v) => match untag(v) { Y::String(s) => Some(Some(s@)), _ => None } }
}
pub open spec fn a_bool(m: Mapping, k: Seq<char>) -> Option<Option<bool>> {
    match yattr(m, k) { None => Some(None), Some(v) => match untag(v) { Y::Bool(b) => Some(Some(b)), _ => None } }
}
pub open spec fn a_real(m: Mapping, k: Seq<char>) -> Option<Option<f64>> {
    match yattr(m, k) { None => Some(None), Some(v) => match untag(v) { Y::Number(n) => match yf64(n) { Some(x) if isfin(x) => Some(Some(x)), _ => None }, _ => None } }
}
pub open spec fn a_int(m: Mapping, k: Seq<char>) -> Option<Option<i64>> {
    match yattr(m, k) { None => Some(None), Some(v) => match untag(v) { Y::Number(n) => match yi64(n) { Some(x) => Some(Some(x)), _ => None }, _ => None } }
}
pub open spec fn a_usize(m: Mapping, k: Seq<char>) -> Option<Option<usize>> {
    match yattr(m, k) { None => Some(None), Some(v) => match untag(v) { Y::Number(n) => match yu64(n) { Some(x) if x <= usize::MAX => Some(Some(x as usize)), _ => None }, _ => None } }
}
/// every attribute is a plain string out of `names`
pub open spec fn only(m: Mapping, names: Seq<&str>) -> bool {
    forall|i: int| 0 <= i < m@.len() ==> (#[trigger] m@[i]).0 is String && kin(names, m@[i].0->String_0@)
}
pub broadcast proof fn lemma_kin(s: Seq<&str>, k: Seq<char>)
    requires s.len() <= 10
    ensures #[trigger] kin(s, k) == (
        s.len() > 0 && s[0]@ == k || s.len() > 1 && s[1]@ == k || s.len() > 2 && s[2]@ == k || s.len() > 3 && s[3]@ == k || s.len() > 4 && s[4]@ == k
        || s.len() > 5 && s[5]@ == k || s.len() > 6 && s[6]@ == k || s.len() > 7 && s[7]@ == k || s.len() > 8 && s[8]@ == k || s.len() > 9 && s[9]@ == k)
{
    if kin(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k; assert(s[i]@ == k); }
    assert(s.len() > 0 && s[0]@ == k ==> s[0].vx_key() == k); assert(s.len() > 1 && s[1]@ == k ==> s[1].vx_key() == k);
    assert(s.len() > 2 && s[2]@ == k ==> s[2].vx_key() == k); assert(s.len() > 3 && s[3]@ == k ==> s[3].vx_key() == k);
    assert(s.len() > 4 && s[4]@ == k ==> s[4].vx_key() == k); assert(s.len() > 5 && s[5]@ == k ==> s[5].vx_key() == k);
    assert(s.len() > 6 && s[6]@ == k ==> s[6].vx_key() == k); assert(s.len() > 7 && s[7]@ == k ==> s[7].vx_key() == k);
    assert(s.len() > 8 && s[8]@ == k ==> s[8].vx_key() == k); assert(s.len() > 9 && s[9]@ == k ==> s[9].vx_key() == k);
}
pub open spec fn builtin(n: Seq<char>) -> bool {
    n == "real"@ || n == "int"@ || n == "bool"@ || n == "sub"@ || n == "array"@ || n == "anon map"@ || n == "variant"@ || n == "enum"@ || n == "optional"@ || n == "const"@
}
/// the built-in names are different from each other
pub proof fn lemma_names()
    ensures
        "real"@.len() == 4, "real"@[0] == 'r', "int"@.len() == 3, "bool"@.len() == 4, "bool"@[0] == 'b', "sub"@.len() == 3, "sub"@[0] == 's', "int"@[0] == 'i',
        "array"@.len() == 5, "array"@[0] == 'a', "anon map"@.len() == 8, "anon map"@[0] == 'a', "variant"@.len() == 7, "enum"@.len() == 4, "enum"@[0] == 'e',
        "optional"@.len() == 8, "optional"@[0] == 'o', "const"@.len() == 5, "const"@[0] == 'c',
{
    reveal_strlit("real"); reveal_strlit("int"); reveal_strlit("bool"); reveal_strlit("sub"); reveal_strlit("array"); reveal_strlit("anon map");
    reveal_strlit("variant"); reveal_strlit("enum"); reveal_strlit("optional"); reveal_strlit("const");
}
pub open spec fn lt_f(a: Option<f64>, b: Option<f64>) -> bool { a is Some && b is Some ==> flt(a->Some_0, b->Some_0) }
pub open spec fn lt_i(a: Option<i64>, b: Option<i64>) -> bool { a is Some && b is Some ==> a->Some_0 < b->Some_0 }
pub open spec fn lt_n(a: Option<usize>, b: Option<usize>) -> bool { a is Some && b is Some ==> a->Some_0 < b->Some_0 }

pub open spec fn den_real(m: Mapping) -> Option<G> {
    match (a_real(m, "min"@), a_real(m, "max"@), a_real(m, "init"@), a_real(m, "scale"@)) {
        (Some(min), Some(max), Some(Some(init)), Some(Some(scale)))
            if only(m, seq!["type", "min", "max", "scale", "init"]) && lt_f(min, max) && crate::sp::f_in(init, min, max) && fpos(scale)
            => Some(G::Real { init, scale, min, max }),
        _ => None,
    }
}
pub open spec fn den_int(m: Mapping) -> Option<G> {
    match (a_int(m, "min"@), a_int(m, "max"@), a_int(m, "init"@), a_real(m, "scale"@)) {
        (Some(min), Some(max), Some(Some(init)), Some(Some(scale)))
            if only(m, seq!["type", "min", "max", "scale", "init"]) && lt_i(min, max) && crate::sp::i_in(init, min, max) && fpos(scale)
            => Some(G::Int { init, scale, min, max }),
        _ => None,
    }
}
pub open spec fn den_bool(m: Mapping) -> Option<G> {
    match a_bool(m, "init"@) { Some(Some(init)) if only(m, seq!["type", "init"]) => Some(G::Bool { init }), _ => None }
}
pub open spec fn den_const(m: Mapping) -> Option<G> { if only(m, seq!["type"]) { Some(G::Const) } else { None } }
pub open spec fn den_ref(m: Mapping, d: Defs, name: Seq<char>) -> Option<G> {
    if d.dom().contains(name) && only(m, seq!["type"]) { Some(d[name]) } else { None }
}
pub open spec fn strs(v: Seq<Y>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]->String_0@) }
/// `v` holds the first `n` of the strings `y`
pub open spec fn str_prefix(v: Seq<String>, y: Seq<Y>, n: int) -> bool {
    &&& v.len() == n <= y.len()
    &&& forall|i: int| #![trigger y[i]] #![trigger v[i]] 0 <= i < n ==> y[i] is String && v[i]@ == y[i]->String_0@
}
pub open spec fn den_enum(m: Mapping) -> Option<G> {
    match (a_str(m, "init"@), yattr(m, "values"@)) {
        (Some(Some(init)), Some(Y::Sequence(v)))
            if only(m, seq!["type", "init", "values"]) && v@.len() >= 2 && (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is String)
                && (exists|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() && (#[trigger] v@[i])->String_0@ != (#[trigger] v@[j])->String_0@)
                && (exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])->String_0@ == init)
            => Some(G::Enum { values: strs(v@), init }),
        _ => None,
    }
}
pub open spec fn kind(m: Mapping) -> Option<Seq<char>> {
    match a_str(m, "type"@) { None => None, Some(None) => Some("sub"@), Some(Some(t)) => Some(t) }
}
pub open spec fn den(y: Y, d: Defs) -> Option<G>
    decreases y, 0int
{
    match y {
        Y::Mapping(m) => match kind(m) {
            None => None,
            Some(t) =>
                if t == "real"@ { den_real(m) }
                else if t == "int"@ { den_int(m) }
                else if t == "bool"@ { den_bool(m) }
                else if t == "sub"@ { den_sub(m, d) }
                else if t == "array"@ { den_array(m, d) }
                else if t == "anon map"@ { den_anon(m, d) }
                else if t == "variant"@ { den_variant(m, d) }
                else if t == "enum"@ { den_enum(m) }
                else if t == "optional"@ { den_optional(m, d) }
                else if t == "const"@ { den_const(m) }
                else { den_ref(m, d, t) },
        },
        _ => None,
    }
}
/// the `valueType` attribute
pub open spec fn value_type(m: Mapping, d: Defs) -> Option<G>
    decreases m, 0int
{
    let i = yidx(m, "valueType"@);
    if 0 <= i < m@.len() { den(m@[i].1, d) } else { None }
}
pub open spec fn den_array(m: Mapping, d: Defs) -> Option<G>
    decreases m, 1int
{
    match (value_type(m, d), a_usize(m, "size"@)) {
        (Some(g), Some(Some(size))) if only(m, seq!["type", "size", "valueType"]) && size >= 2 => Some(G::Array { value_type: Box::new(g), size }),
        _ => None,
    }
}
pub open spec fn den_anon(m: Mapping, d: Defs) -> Option<G>
    decreases m, 1int
{
    match (value_type(m, d), a_usize(m, "minSize"@), a_usize(m, "maxSize"@), a_usize(m, "initSize"@)) {
        (Some(g), Some(min_size), Some(max_size), Some(Some(init_size)))
            if only(m, seq!["type", "initSize", "minSize", "maxSize", "valueType"]) && lt_n(min_size, max_size)
                && max_size != Some(0usize) && crate::sp::n_in(init_size as int, min_size, max_size)
            => Some(G::AnonMap { value_type: Box::new(g), init_size, min_size, max_size }),
        _ => None,
    }
}
pub open spec fn den_optional(m: Mapping, d: Defs) -> Option<G>
    decreases m, 1int
{
    match (value_type(m, d), a_bool(m, "initPresent"@)) {
        (Some(g), Some(Some(init_present))) if only(m, seq!["type", "initPresent", "valueType"]) => Some(G::Optional { value_type: Box::new(g), init_present }),
        _ => None,
    }
}
pub open spec fn is_def(k: Seq<char>) -> bool { "typeDef "@.is_prefix_of(k) }
pub open spec fn def_name(k: Seq<char>) -> Seq<char> { k.skip("typeDef "@.len() as int) }
/// the definitions in scope after the first `i` attributes of a sub: later ones see (and shadow) earlier ones
pub open spec fn scope(m: Mapping, i: int, d: Defs) -> Option<Defs>
    decreases m, 1int, i
{
    if !(0 < i <= m@.len()) { Some(d) } else {
        match (scope(m, i - 1, d), m@[i - 1].0) {
            (Some(d1), Y::String(k)) => if is_def(k@) {
                if builtin(def_name(k@)) { None } else {
                    match den(m@[i - 1].1, d1) { Some(g) => Some(d1.insert(def_name(k@), g)), None => None }
                }
            } else { Some(d1) },
            _ => None,
        }
    }
}
pub open spec fn is_member(k: Seq<char>, sub: bool) -> bool { k != "type"@ && (if sub { !is_def(k) } else { k != "init"@ }) }
/// the members among the first `i` attributes of a sub or variant
pub open spec fn members(m: Mapping, i: int, d: Defs, sub: bool) -> Option<Defs>
    decreases m, 1int, i
{
    if !(0 < i <= m@.len()) { Some(Map::empty()) } else {
        match (members(m, i - 1, d, sub), m@[i - 1].0) {
            (Some(o), Y::String(k)) => if is_member(k@, sub) {
                match den(m@[i - 1].1, d) { Some(g) => Some(o.insert(k@, g)), None => None }
            } else { Some(o) },
            _ => None,
        }
    }
}
pub open spec fn den_sub(m: Mapping, d: Defs) -> Option<G>
    decreases m, 2int
{
    match scope(m, m@.len() as int, d) {
        None => None,
        Some(d2) => match members(m, m@.len() as int, d2, true) {
            Some(o) if o.dom().len() > 0 => Some(G::Sub { map: o }),
            _ => None,
        }
    }
}
pub open spec fn den_variant(m: Mapping, d: Defs) -> Option<G>
    decreases m, 2int
{
    match (a_str(m, "init"@), members(m, m@.len() as int, d, false)) {
        (Some(Some(init)), Some(o)) if o.dom().len() >= 2 && o.dom().contains(init) => Some(G::Variant { map: o, init }),
        _ => None,
    }
}
/// a broken rule is not repaired by later attributes
pub proof fn lemma_scope_none(m: Mapping, i: int, j: int, d: Defs)
    requires scope(m, i, d) is None, 0 <= i <= j <= m@.len()
    ensures scope(m, j, d) is None
    decreases j - i
{ if i < j { lemma_scope_none(m, i, j - 1, d); } }
pub proof fn lemma_members_none(m: Mapping, i: int, j: int, d: Defs, sub: bool)
    requires members(m, i, d, sub) is None, 0 <= i <= j <= m@.len()
    ensures members(m, j, d, sub) is None
    decreases j - i
{ if i < j { lemma_members_none(m, i, j - 1, d, sub); } }

/// the outcome of parsing: the space denoted, well-formed, or an error if none is
pub open spec fn outcome(r: Result<S, crate::error::Error>, g: Option<G>) -> bool {
    match r { Ok(s) => g == Some(abs(s)) && crate::sp::wf(s), Err(_) => g is None }
}
pub open spec fn opt_str(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// the outcome of reading an attribute
pub open spec fn read<T>(r: Result<Option<T>, crate::error::Error>, a: Option<Option<T>>, mandatory: bool) -> bool {
    match r { Ok(o) => a == Some(o) && (mandatory ==> o is Some), Err(_) => a is None || mandatory && a == Some(None::<T>) }
}
/// what a document denotes
pub open spec fn den_doc(t: Seq<char>) -> Option<G> { match yparsed(t) { Some(y) => den(y, Map::empty()), None => None } }

%mod yaml_lemmas
%raw
use crate::yam::*;
use crate::spec::Node as S;
use serde_yaml::Mapping;
#[allow(unused_imports)] use vstd::map::Map;
pub broadcast proof fn lemma_defs_insert(a: HashMap<String, S>, b: HashMap<String, S>, k: Seq<char>, v: S)
    requires b@ == #[trigger] a@.insert(k, v)
    ensures #[trigger] defs(b) == defs(a).insert(k, abs(v))
{ assert(defs(b) =~= defs(a).insert(k, abs(v))); }
pub broadcast proof fn lemma_boxed_insert(a: HashMap<String, Box<S>>, b: HashMap<String, Box<S>>, k: Seq<char>, v: Box<S>)
    requires b@ == #[trigger] a@.insert(k, v)
    ensures #[trigger] boxed(b) == boxed(a).insert(k, abs(*v))
{ assert(boxed(b) =~= boxed(a).insert(k, abs(*v))); }
pub broadcast proof fn lemma_defs_empty(m: HashMap<String, S>)
    requires m@.dom() =~= Set::empty()
    ensures #[trigger] defs(m) == Map::<Seq<char>, G>::empty()
{ assert(defs(m) =~= Map::empty()); }
pub broadcast proof fn lemma_boxed_empty(m: HashMap<String, Box<S>>)
    requires m@.dom() =~= Set::empty()
    ensures #[trigger] boxed(m) == Map::<Seq<char>, G>::empty()
{ assert(boxed(m) =~= Map::empty()); }
pub broadcast proof fn lemma_abs(s: S)
    ensures #[trigger] abs(s) == match s { S::Sub { map } => G::Sub { map: boxed(map) }, S::Variant { map, init } => G::Variant { map: boxed(map), init: init@ }, _ => abs(s) }
{
    match s {
        S::Sub { map } => { assert(abs(s)->Sub_map =~= boxed(map)); }
        S::Variant { map, init } => { assert(abs(s)->Variant_map =~= boxed(map)); }
        _ => {}
    }
}
/// all keys of a sub whose scope is defined are strings
pub proof fn lemma_scope_keys(m: Mapping, i: int, d: Defs)
    requires scope(m, i, d) is Some, 0 <= i <= m@.len()
    ensures forall|j: int| 0 <= j < i ==> (#[trigger] m@[j]).0 is String
    decreases i
{ if i > 0 { lemma_scope_keys(m, i - 1, d); } }

%mod spec_util src/spec_util.rs
%raw
#[allow(unused_imports)] use crate::yam::*;
#[allow(unused_imports)] use crate::yaml_lemmas::*;
#[allow(unused_imports)] use serde_yaml::{yattr, yidx, yfind, untag, yf64, yi64, yu64, yparsed};
#[allow(unused_imports)] use vstd::map::Map;
%use broadcast crate::yam::lemma_kin, crate::yaml_lemmas::lemma_defs_insert, crate::yaml_lemmas::lemma_boxed_insert, crate::yaml_lemmas::lemma_defs_empty, crate::yaml_lemmas::lemma_boxed_empty, crate::yaml_lemmas::lemma_abs, serde_yaml::ax_ymap_height, serde_yaml::ax_yval_height
%fn from_yaml_str(a_t)
    ensures match r { Ok(s) => den_doc(a_t@) == Some(abs(s.0)) && crate::sp::wf(s.0), Err(_) => den_doc(a_t@) is None },
%fn build_node(a_y, a_d, a_p)
    requires defs_wf(*a_d),
    ensures outcome(r, den(*a_y, defs(*a_d))),
    decreases *a_y, 3int,
%at start
    proof { lemma_names(); }
%fn build_real(a_m, a_p)
    ensures outcome(r, den_real(*a_m)),
%fn build_int(a_m, a_p)
    ensures outcome(r, den_int(*a_m)),
%fn build_bool(a_m, a_p)
    ensures outcome(r, den_bool(*a_m)),
%fn build_const(a_m, a_p)
    ensures outcome(r, den_const(*a_m)),
%fn build_enum(a_m, a_p)
    ensures outcome(r, den_enum(*a_m)),
%loop 0
    yattr(*a_m, "values"@) == Some(serde_yaml::Value::Sequence(*values_sequence)), seq_refs($all, values_sequence@), str_prefix(values@, values_sequence@, $pos),
%at end
    proof { if r is Ok { assert(abs(r->Ok_0)->Enum_values =~= strs(yattr(*a_m, "values"@)->Some_0->Sequence_0@)); } }
%fn build_sub(a_m, a_d, a_p)
    requires defs_wf(*a_d),
    ensures outcome(r, den_sub(*a_m, defs(*a_d))),
    decreases *a_m, 2int,
%loop 0
    defs_wf(sub_type_defs), ylist($all, a_m@), scope(*a_m, $pos, defs(*a_d)) == Some(defs(sub_type_defs)),
%at loopstart 0
    proof { if scope(*a_m, $pos + 1, defs(*a_d)) is None { lemma_scope_none(*a_m, $pos + 1, a_m@.len() as int, defs(*a_d)); } }
%loop 1
    defs_wf(sub_type_defs), ylist($all, a_m@), scope(*a_m, a_m@.len() as int, defs(*a_d)) == Some(defs(sub_type_defs)),
    boxed_wf(out_mapping), members(*a_m, $pos, defs(sub_type_defs), true) == Some(boxed(out_mapping)),
%at loopstart 1
    proof {
        lemma_scope_keys(*a_m, a_m@.len() as int, defs(*a_d));
        if members(*a_m, $pos + 1, defs(sub_type_defs), true) is None { lemma_members_none(*a_m, $pos + 1, a_m@.len() as int, defs(sub_type_defs), true); }
    }
%fn build_variant(a_m, a_d, a_p)
    requires defs_wf(*a_d),
    ensures outcome(r, den_variant(*a_m, defs(*a_d))),
    decreases *a_m, 2int,
%loop 0
    ylist($all, a_m@), boxed_wf(out_mapping), members(*a_m, $pos, defs(*a_d), false) == Some(boxed(out_mapping)),
%at loopstart 0
    proof { if members(*a_m, $pos + 1, defs(*a_d), false) is None { lemma_members_none(*a_m, $pos + 1, a_m@.len() as int, defs(*a_d), false); } }
%fn build_array(a_m, a_d, a_p)
    requires defs_wf(*a_d),
    ensures outcome(r, den_array(*a_m, defs(*a_d))),
    decreases *a_m, 2int,
%fn build_anon_map(a_m, a_d, a_p)
    requires defs_wf(*a_d),
    ensures outcome(r, den_anon(*a_m, defs(*a_d))),
    decreases *a_m, 2int,
%fn build_optional(a_m, a_d, a_p)
    requires defs_wf(*a_d),
    ensures outcome(r, den_optional(*a_m, defs(*a_d))),
    decreases *a_m, 2int,
%fn extract_value_type_attr_value(a_m, a_d, a_p)
    requires defs_wf(*a_d),
    ensures match r { Ok(s) => value_type(*a_m, defs(*a_d)) == Some(abs(*s)) && crate::sp::wf(*s), Err(_) => value_type(*a_m, defs(*a_d)) is None },
    decreases *a_m, 1int,
%fn extract_string(a_m, a_k, a_p, a_b)
    ensures match r { Ok(o) => a_str(*a_m, a_k@) == Some(opt_str(o)) && (a_b ==> o is Some), Err(_) => a_str(*a_m, a_k@) is None || a_b && a_str(*a_m, a_k@) == Some(None::<Seq<char>>) },
%closure 0
    -> (cr: Option<String>) ensures match cr { Some(s) => untag(*$c0) is String && untag(*$c0)->String_0@ == s@, None => !(untag(*$c0) is String) },
%fn extract_real(a_m, a_k, a_p, a_b)
    ensures read(r, a_real(*a_m, a_k@), a_b),
%closure 0
    -> (cr: Option<f64>) ensures cr == match untag(*$c0) { serde_yaml::Value::Number(n) => yf64(n), _ => None },
%fn extract_int(a_m, a_k, a_p, a_b)
    ensures read(r, a_int(*a_m, a_k@), a_b),
%closure 0
    -> (cr: Option<i64>) ensures cr == match untag(*$c0) { serde_yaml::Value::Number(n) => yi64(n), _ => None },
%fn extract_bool(a_m, a_k, a_p, a_b)
    ensures read(r, a_bool(*a_m, a_k@), a_b),
%closure 0
    -> (cr: Option<bool>) ensures cr == match untag(*$c0) { serde_yaml::Value::Bool(b) => Some(b), _ => None },
%fn extract_usize_attribute_value(a_m, a_k, a_p, a_b)
    ensures read(r, a_usize(*a_m, a_k@), a_b),
%closure 0
    -> (cr: Option<u64>) ensures cr == match untag(*$c0) { serde_yaml::Value::Number(n) => yu64(n), _ => None },
%fn extract_attribute_value(a_m, a_k, a_p, a_f, a_h, a_b)
    requires forall|v: serde_yaml::Value| #[trigger] call_requires(a_f, (&v,)),
    ensures match yattr(*a_m, a_k@) {
        None => if a_b { r is Err } else { r is Ok && r->Ok_0 is None },
        Some(v) => match r { Ok(o) => o is Some && call_ensures(a_f, (&v,), o), Err(_) => call_ensures(a_f, (&v,), None) } },
%fn check_for_unexpected_attributes(a_m, a_n, a_p)
    ensures r is Ok == only(*a_m, a_n@),
%at start
    let ghost names = a_n@;
%loop 0
    forall|k: Seq<char>| #[trigger] allowed_attributes@.contains(k) == kin(names, k),
    forall|i: int| 0 <= i < $pos ==> (#[trigger] a_m@[i]).0 is String && kin(names, a_m@[i].0->String_0@),
%fn check_finite(a_x, a_k, a_p)
    ensures r is Ok == isfin(a_x),
%fn check_scale(a_x, a_p)
    ensures r is Ok == !fle(a_x, 0.0f64),
%fn format_attribute_key(a_k)
    ensures true,
%attr rename replace vx_replace
