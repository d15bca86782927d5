%% C11: the value/JSON codec
%mod spec src/spec.rs
%fn Spec::initial_value
    requires crate::sp::wf(self.0),
    ensures crate::sp::is_init(self.0, r.0), crate::sp::conf(self.0, r.0),
%fn Node::initial_value
    requires crate::sp::wf(*self),
    ensures crate::sp::is_init(*self, r),
        crate::sp::conf(*self, r),
    decreases self,
%loop 0 Vec<Box<crate::value::Node>>
    self is Array, $out@.len() == $pos,
    forall|i: int| 0 <= i < $out@.len() ==> crate::sp::is_init(*self->Array_value_type, *#[trigger] $out@[i]),
%loop 1 HashMap<usize, Box<crate::value::Node>>
    self is AnonMap, $out@.dom().len() == $pos,
    forall|k: usize| #[trigger] $out@.dom().contains(k) ==> k < $pos && crate::sp::is_init(*self->AnonMap_value_type, *$out@[k]),
%loop 2 HashMap<String, Box<crate::value::Node>>
    self is Sub, enumerates($all, self->Sub_map@),
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) <==> self->Sub_map@.dom().contains(k) && kidx($all, k) < $pos,
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) ==> crate::sp::is_init(*self->Sub_map@[k], *$out@[k]),
%at end
    proof { if self is Sub { assert(self->Sub_map@.dom() =~= r->Sub_0@.dom()); } crate::sp::lemma_init_conf(*self, r); }

%if !C10
%mod value src/value.rs
%fn Value::to_json
    requires crate::js::finv(self.0),
    ensures crate::js::js(self.0, r),
%fn Node::to_json
    requires crate::js::finv(*self),
    ensures crate::js::js(*self, r),
    decreases self,
%loop 0 Vec<serde_json::Value>
    self is Array, seq_refs($all, self->Array_0@), $out@.len() == $pos,
    forall|i: int| 0 <= i < $out@.len() ==> crate::js::js(*#[trigger] self->Array_0@[i], $out@[i]),
%loop 1
    self is AnonMap, enumerates($all, self->AnonMap_0@),
    forall|s: Seq<char>| #[trigger] $out@.dom().contains(s) ==> exists|k: usize| #[trigger] self->AnonMap_0@.dom().contains(k) && dec(k) == s,
    forall|k: usize| #[trigger] self->AnonMap_0@.dom().contains(k) && kidx($all, k) < $pos ==> $out@.dom().contains(dec(k)) && crate::js::js(*self->AnonMap_0@[k], $out@[dec(k)]),
%loop 2
    self is Sub, enumerates($all, self->Sub_0@),
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) <==> self->Sub_0@.dom().contains(k) && kidx($all, k) < $pos,
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) ==> crate::js::js(*self->Sub_0@[k], $out@[k]),

%mod js
%raw
// JSON encodings of values and what documents denote
use crate::spec::Node as S;
use crate::value::Node as V;
use serde_json::Value as J;
use serde_json::NumV;
use crate::sp::*;

pub open spec fn finv(v: V) -> bool
    decreases v
{
    match v {
        V::Real(x) => isfin(x),
        V::Sub(m) => forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> finv(*m@[k]),
        V::Array(e) => forall|i: int| 0 <= i < e@.len() ==> finv(*#[trigger] e@[i]),
        V::AnonMap(m) => forall|k: usize| #[trigger] m@.dom().contains(k) ==> finv(*m@[k]),
        V::Variant(_, x) => finv(*x),
        V::Optional(o) => o is Some ==> finv(*o->Some_0),
        _ => true,
    }
}
pub broadcast proof fn lemma_conf_finv(s: S, v: V)
    requires #[trigger] conf(s, v)
    ensures #[trigger] finv(v)
    decreases s
{
    match (s, v) {
        (S::Sub { map }, V::Sub(m)) => { assert forall|k: Seq<char>| #[trigger] m@.dom().contains(k) implies finv(*m@[k]) by { assert(map@.dom().contains(k)); lemma_conf_finv(*map@[k], *m@[k]); } }
        (S::Array { value_type, size }, V::Array(e)) => { assert forall|i: int| 0 <= i < e@.len() implies finv(*#[trigger] e@[i]) by { lemma_conf_finv(*value_type, *e@[i]); } }
        (S::AnonMap { value_type, .. }, V::AnonMap(m)) => { assert forall|k: usize| #[trigger] m@.dom().contains(k) implies finv(*m@[k]) by { lemma_conf_finv(*value_type, *m@[k]); } }
        (S::Variant { map, .. }, V::Variant(n, x)) => { lemma_conf_finv(*map@[n@], *x); }
        (S::Optional { value_type, .. }, V::Optional(Some(o))) => { lemma_conf_finv(*value_type, *o); }
        _ => {}
    }
}
/// `j` is the JSON encoding of `v`
pub open spec fn js(v: V, j: J) -> bool
    decreases v
{
    match (v, j) {
        (V::Real(x), J::Number(n)) => n@ == NumV::F(x),
        (V::Int(x), J::Number(n)) => n@ == NumV::I(x),
        (V::Bool(x), J::Bool(y)) => x == y,
        (V::Sub(m), J::Object(o)) => o@.dom() =~= m@.dom() && forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> js(*m@[k], o@[k]),
        (V::Array(e), J::Array(a)) => a@.len() == e@.len() && forall|i: int| 0 <= i < e@.len() ==> js(*#[trigger] e@[i], a@[i]),
        (V::AnonMap(m), J::Object(o)) => (forall|k: usize| #[trigger] m@.dom().contains(k) ==> o@.dom().contains(dec(k)) && js(*m@[k], o@[dec(k)]))
            && forall|s: Seq<char>| #[trigger] o@.dom().contains(s) ==> exists|k: usize| #[trigger] m@.dom().contains(k) && dec(k) == s,
        (V::Variant(n, x), J::Object(o)) => o@.dom() =~= set![n@] && js(*x, o@[n@]),
        (V::Enum(n), J::String(t)) => n@ == t@,
        (V::Optional(Some(x)), _) => js(*x, j),
        (V::Optional(None), J::Null) => true,
        (V::Const, J::Null) => true,
        _ => false,
    }
}
%endif
