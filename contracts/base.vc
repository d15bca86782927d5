%% Types and helper functions every property run needs.
%mod types src/types.rs
%expect HashMap FxHashMap<K, V>
%raw
pub use crate::ext::HashMap;

%mod error src/error.rs
%types Error ProcOutputWithObjFuncArg
%raw
impl From<serde_json::Error> for Error { #[verifier::external_body] fn from(e: serde_json::Error) -> (r: Self) ensures r == Error::InvalidJson(e) { unimplemented!() } }
impl From<serde_yaml::Error> for Error { #[verifier::external_body] fn from(e: serde_yaml::Error) -> (r: Self) ensures r == Error::InvalidYaml(e) { unimplemented!() } }
impl From<io::Error> for Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) ensures r == Error::Io(e) { unimplemented!() } }
impl From<ctrlc::Error> for Error { #[verifier::external_body] fn from(e: ctrlc::Error) -> (r: Self) ensures r == Error::FailedToSetSignalHandler(e) { unimplemented!() } }

%mod common_util src/common_util.rs
%fn format_path assume

%mod value src/value.rs
%types Value Node

%mod spec src/spec.rs
%types Spec Node

%mod sp
%raw
// The mathematical vocabulary: well-formed parameter spaces and conforming values.
use crate::spec::Node as S;
use crate::value::Node as V;

pub open spec fn f_in(x: f64, min: Option<f64>, max: Option<f64>) -> bool {
    (min is Some ==> fle(min->Some_0, x)) && (max is Some ==> fle(x, max->Some_0))
}
pub open spec fn i_in(x: i64, min: Option<i64>, max: Option<i64>) -> bool {
    (min is Some ==> min->Some_0 <= x) && (max is Some ==> x <= max->Some_0)
}
pub open spec fn n_in(x: int, min: Option<usize>, max: Option<usize>) -> bool {
    (min is Some ==> min->Some_0 <= x) && (max is Some ==> x <= max->Some_0)
}
/// a well-formed parameter space (the rules of C10)
pub open spec fn wf(s: S) -> bool
    decreases s
{
    match s {
        S::Real { init, scale, min, max } => isfin(init) && fpos(scale)
            && (min is Some ==> isfin(min->Some_0)) && (max is Some ==> isfin(max->Some_0))
            && (min is Some && max is Some ==> flt(min->Some_0, max->Some_0)) && f_in(init, min, max),
        S::Int { init, scale, min, max } => fpos(scale)
            && (min is Some && max is Some ==> min->Some_0 < max->Some_0) && i_in(init, min, max),
        S::Bool { .. } => true,
        S::Sub { map } => map@.dom().len() > 0 && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> wf(*map@[k]),
        S::Array { value_type, size } => size >= 2 && wf(*value_type),
        S::AnonMap { value_type, init_size, min_size, max_size } => wf(*value_type)
            && (min_size is Some && max_size is Some ==> min_size->Some_0 < max_size->Some_0)
            && (max_size is Some ==> max_size->Some_0 > 0)
            && n_in(init_size as int, min_size, max_size),
        S::Variant { map, init } => map@.dom().len() >= 2 && map@.dom().contains(init@)
            && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> wf(*map@[k]),
        S::Enum { values, init } => (exists|i: int| 0 <= i < values@.len() && (#[trigger] values@[i])@ == init@)
            && (exists|i: int, j: int| 0 <= i < values@.len() && 0 <= j < values@.len() && (#[trigger] values@[i])@ != (#[trigger] values@[j])@),
        S::Optional { value_type, .. } => wf(*value_type),
        S::Const => true,
    }
}
/// value `v` conforms to parameter space `s` (C01)
pub open spec fn conf(s: S, v: V) -> bool
    decreases s
{
    match (s, v) {
        (S::Real { min, max, .. }, V::Real(x)) => isfin(x) && f_in(x, min, max),
        (S::Int { min, max, .. }, V::Int(x)) => i_in(x, min, max),
        (S::Bool { .. }, V::Bool(_)) => true,
        (S::Sub { map }, V::Sub(m)) => map@.dom() =~= m@.dom() && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> conf(*map@[k], *m@[k]),
        (S::Array { value_type, size }, V::Array(e)) => e@.len() == size && forall|i: int| 0 <= i < e@.len() ==> conf(*value_type, *#[trigger] e@[i]),
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(m)) => n_in(m@.dom().len() as int, min_size, max_size)
            && forall|k: usize| #[trigger] m@.dom().contains(k) ==> conf(*value_type, *m@[k]),
        (S::Variant { map, .. }, V::Variant(n, x)) => map@.dom().contains(n@) && conf(*map@[n@], *x),
        (S::Enum { values, .. }, V::Enum(n)) => exists|i: int| 0 <= i < values@.len() && (#[trigger] values@[i])@ == n@,
        (S::Optional { value_type, .. }, V::Optional(o)) => o is Some ==> conf(*value_type, *o->Some_0),
        (S::Const, V::Const) => true,
        _ => false,
    }
}
/// `v` is the declared initial value of `s`
pub open spec fn is_init(s: S, v: V) -> bool
    decreases s
{
    match (s, v) {
        (S::Real { init, .. }, V::Real(x)) => x == init,
        (S::Int { init, .. }, V::Int(x)) => x == init,
        (S::Bool { init }, V::Bool(x)) => x == init,
        (S::Sub { map }, V::Sub(m)) => map@.dom() =~= m@.dom() && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> is_init(*map@[k], *m@[k]),
        (S::Array { value_type, size }, V::Array(e)) => e@.len() == size && forall|i: int| 0 <= i < e@.len() ==> is_init(*value_type, *#[trigger] e@[i]),
        (S::AnonMap { value_type, init_size, .. }, V::AnonMap(m)) => m@.dom().len() == init_size
            && forall|k: usize| #[trigger] m@.dom().contains(k) ==> k < init_size && is_init(*value_type, *m@[k]),
        (S::Variant { map, init }, V::Variant(n, x)) => n@ == init@ && map@.dom().contains(n@) && is_init(*map@[n@], *x),
        (S::Enum { init, .. }, V::Enum(n)) => n@ == init@,
        (S::Optional { value_type, init_present }, V::Optional(o)) => (o is Some) == init_present && (o is Some ==> is_init(*value_type, *o->Some_0)),
        (S::Const, V::Const) => true,
        _ => false,
    }
}
pub proof fn lemma_init_conf(s: S, v: V)
    requires wf(s), is_init(s, v)
    ensures conf(s, v)
    decreases s
{
    match (s, v) {
        (S::Sub { map }, V::Sub(m)) => { assert forall|k: Seq<char>| #[trigger] map@.dom().contains(k) implies conf(*map@[k], *m@[k]) by { lemma_init_conf(*map@[k], *m@[k]); } }
        (S::Array { value_type, size }, V::Array(e)) => { assert forall|i: int| 0 <= i < e@.len() implies conf(*value_type, *#[trigger] e@[i]) by { lemma_init_conf(*value_type, *e@[i]); } }
        (S::AnonMap { value_type, .. }, V::AnonMap(m)) => { assert forall|k: usize| #[trigger] m@.dom().contains(k) implies conf(*value_type, *m@[k]) by { lemma_init_conf(*value_type, *m@[k]); } }
        (S::Variant { map, .. }, V::Variant(n, x)) => { lemma_init_conf(*map@[n@], *x); }
        (S::Optional { value_type, .. }, V::Optional(Some(o))) => { lemma_init_conf(*value_type, *o); }
        _ => {}
    }
}
