%% C13 (and the mutation halves of C01, C15, C17)
%mod mu
%raw
// what one mutation may do
use crate::spec::Node as S;
use crate::value::Node as V;
use crate::sp::*;
%if !C13 C17
// the probability clauses belong to C13 and C17
pub open spec fn am_src(vt: S, a: Map<usize, Box<V>>, e: V) -> bool { true }
pub open spec fn am_new(vt: S, a: Map<usize, Box<V>>, w: V, z: bool, o: bool) -> bool { true }
pub open spec fn am_added(a: Map<usize, Box<V>>, b: Map<usize, Box<V>>, k: usize) -> bool { !a.dom().contains(k) && b.dom() =~= a.dom().insert(k) }
pub open spec fn am_removed(a: Map<usize, Box<V>>, b: Map<usize, Box<V>>, k: usize) -> bool { a.dom().contains(k) && b.dom() =~= a.dom().remove(k) }
pub open spec fn mutated(s: S, v: V, w: V, z: bool, o: bool) -> bool { true }
pub open spec fn veq(v: V, w: V) -> bool { true }
pub proof fn lemma_zero_identity(s: S, v: V, w: V, z: bool, o: bool) {}
pub proof fn lemma_am_new(vt: S, a: Map<usize, Box<V>>, e: V, w: V, z: bool, o: bool) {}
%else
/// the element added to a resizable map stems from one of its elements, or from the initial value
pub open spec fn am_src(vt: S, a: Map<usize, Box<V>>, e: V) -> bool {
    (exists|k: usize| #[trigger] a.dom().contains(k) && *a[k] == e) || a.dom().len() == 0 && is_init(vt, e)
}
pub open spec fn am_new(vt: S, a: Map<usize, Box<V>>, w: V, z: bool, o: bool) -> bool
    decreases vt, 1int
{ exists|e: V| #[trigger] am_src(vt, a, e) && mutated(vt, e, w, z, o) }
pub proof fn lemma_am_new(vt: S, a: Map<usize, Box<V>>, e: V, w: V, z: bool, o: bool)
    requires am_src(vt, a, e), mutated(vt, e, w, z, o)
    ensures am_new(vt, a, w, z, o)
{ }
pub open spec fn am_added(a: Map<usize, Box<V>>, b: Map<usize, Box<V>>, k: usize) -> bool { !a.dom().contains(k) && b.dom() =~= a.dom().insert(k) }
pub open spec fn am_removed(a: Map<usize, Box<V>>, b: Map<usize, Box<V>>, k: usize) -> bool { a.dom().contains(k) && b.dom() =~= a.dom().remove(k) }
/// `w` is a mutation of `v` (C13; `z`, `o`: the probability is 0, is 1; and the liveness clauses of C17)
pub open spec fn mutated(s: S, v: V, w: V, z: bool, o: bool) -> bool
    decreases s, 0int
{
    match (s, v, w) {
        (S::Real { .. }, V::Real(x), V::Real(y)) => z ==> x == y,
        (S::Int { .. }, V::Int(x), V::Int(y)) => z ==> x == y,
        (S::Bool { .. }, V::Bool(x), V::Bool(y)) => (z ==> x == y) && (o ==> x != y),
        (S::Sub { map }, V::Sub(a), V::Sub(b)) => a@.dom() =~= b@.dom() && map@.dom() =~= a@.dom()
            && forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> mutated(*map@[k], *a@[k], *b@[k], z, o),
        (S::Array { value_type, .. }, V::Array(a), V::Array(b)) => a@.len() == b@.len()
            && forall|i: int| 0 <= i < a@.len() ==> mutated(*value_type, *#[trigger] a@[i], *b@[i], z, o),
        (S::AnonMap { value_type, .. }, V::AnonMap(a), V::AnonMap(b)) =>
            (z ==> a@.dom() =~= b@.dom())
            && (o ==> !(a@.dom() =~= b@.dom()))
            && (forall|k: usize| #[trigger] a@.dom().contains(k) && b@.dom().contains(k) ==> mutated(*value_type, *a@[k], *b@[k], z, o))
            && (a@.dom() =~= b@.dom()
                || (exists|k: usize| #[trigger] am_removed(a@, b@, k))
                || (exists|k: usize| #[trigger] am_added(a@, b@, k) && am_new(*value_type, a@, *b@[k], z, o))),
        (S::Variant { map, .. }, V::Variant(n, x), V::Variant(m, y)) => (z ==> n@ == m@) && (o ==> n@ != m@)
            && map@.dom().contains(m@)
            && (n@ == m@ ==> mutated(*map@[m@], *x, *y, z, o))
            && (n@ != m@ ==> exists|e: V| #[trigger] is_init(*map@[m@], e) && mutated(*map@[m@], e, *y, z, o)),
        (S::Enum { .. }, V::Enum(n), V::Enum(m)) => (z ==> n@ == m@) && (o ==> n@ != m@),
        (S::Optional { value_type, .. }, V::Optional(a), V::Optional(b)) => (z ==> (a is Some) == (b is Some)) && (o ==> (a is Some) != (b is Some))
            && (a is Some && b is Some ==> mutated(*value_type, *a->Some_0, *b->Some_0, z, o))
            && (a is None && b is Some ==> exists|e: V| #[trigger] is_init(*value_type, e) && mutated(*value_type, e, *b->Some_0, z, o)),
        (S::Const, _, V::Const) => true,
        _ => false,
    }
}
/// the same value, read through the views of maps, vectors and strings
pub open spec fn veq(v: V, w: V) -> bool
    decreases v
{
    match (v, w) {
        (V::Real(x), V::Real(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Sub(a), V::Sub(b)) => a@.dom() =~= b@.dom() && forall|k: Seq<char>| #[trigger] a@.dom().contains(k) ==> veq(*a@[k], *b@[k]),
        (V::Array(a), V::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> veq(*#[trigger] a@[i], *b@[i]),
        (V::AnonMap(a), V::AnonMap(b)) => a@.dom() =~= b@.dom() && forall|k: usize| #[trigger] a@.dom().contains(k) ==> veq(*a@[k], *b@[k]),
        (V::Variant(n, x), V::Variant(m, y)) => n@ == m@ && veq(*x, *y),
        (V::Enum(n), V::Enum(m)) => n@ == m@,
        (V::Optional(Some(x)), V::Optional(Some(y))) => veq(*x, *y),
        (V::Optional(None), V::Optional(None)) => true,
        (V::Const, V::Const) => true,
        _ => false,
    }
}
/// C13: mutation with probability 0 returns its input unchanged
pub proof fn lemma_zero_identity(s: S, v: V, w: V, z: bool, o: bool)
    requires conf(s, v), mutated(s, v, w, z, o), z
    ensures veq(v, w)
    decreases s
{
    match (s, v, w) {
        (S::Sub { map }, V::Sub(a), V::Sub(b)) => { assert forall|k: Seq<char>| #[trigger] a@.dom().contains(k) implies veq(*a@[k], *b@[k]) by { assert(map@.dom().contains(k)); lemma_zero_identity(*map@[k], *a@[k], *b@[k], z, o); } }
        (S::Array { value_type, .. }, V::Array(a), V::Array(b)) => { assert forall|i: int| 0 <= i < a@.len() implies veq(*#[trigger] a@[i], *b@[i]) by { lemma_zero_identity(*value_type, *a@[i], *b@[i], z, o); } }
        (S::AnonMap { value_type, .. }, V::AnonMap(a), V::AnonMap(b)) => { assert forall|k: usize| #[trigger] a@.dom().contains(k) implies veq(*a@[k], *b@[k]) by { lemma_zero_identity(*value_type, *a@[k], *b@[k], z, o); } }
        (S::Variant { map, .. }, V::Variant(n, x), V::Variant(m, y)) => { lemma_zero_identity(*map@[m@], *x, *y, z, o); }
        (S::Optional { value_type, .. }, V::Optional(Some(x)), V::Optional(Some(y))) => { lemma_zero_identity(*value_type, *x, *y, z, o); }
        _ => {}
    }
}
/// C13: a map's size changes by at most one, with probability 1 by exactly one
pub proof fn lemma_resize(s: S, v: V, w: V, z: bool, o: bool)
    requires mutated(s, v, w, z, o), s is AnonMap
    ensures v is AnonMap, w is AnonMap, ({ let a = v->AnonMap_0@.dom().len() as int; let b = w->AnonMap_0@.dom().len() as int; a - 1 <= b <= a + 1 && (o ==> a != b) })
{
    let a = v->AnonMap_0@; let b = w->AnonMap_0@;
    if !(a.dom() =~= b.dom()) {
        if exists|k: usize| #[trigger] am_removed(a, b, k) { let k = choose|k: usize| #[trigger] am_removed(a, b, k); assert(b.dom() =~= a.dom().remove(k)); }
        else { let k = choose|k: usize| #[trigger] am_added(a, b, k); assert(b.dom() =~= a.dom().insert(k)); }
    }
}
%endif
pub proof fn lemma_other_key(d: Set<Seq<char>>, k: Seq<char>)
    requires d.len() >= 2
    ensures exists|o: Seq<char>| d.contains(o) && o != k
{
    if forall|o: Seq<char>| d.contains(o) ==> o == k {
        if d.contains(k) { assert(d.remove(k) =~= Set::empty()); } else { assert(d =~= Set::empty()); }
    }
}
/// some key is not used by a map
pub open spec fn missing(d: Set<usize>) -> usize { choose|m: usize| !d.contains(m) }
pub proof fn lemma_count(d: Set<usize>, n: int)
    requires 0 <= n <= usize::MAX + 1, forall|i: int| 0 <= i < n ==> d.contains(#[trigger] (i as usize))
    ensures d.len() >= n
    decreases n
{
    if n > 0 {
        let e = d.remove((n - 1) as usize);
        assert forall|i: int| 0 <= i < n - 1 implies e.contains(#[trigger] (i as usize)) by { assert(d.contains(i as usize)); assert((i as usize) != ((n - 1) as usize)); }
        lemma_count(e, n - 1);
        assert(d.contains((n - 1) as usize));
    }
}
pub proof fn lemma_missing(d: Set<usize>)
    requires d.len() <= usize::MAX
    ensures !d.contains(missing(d))
{
    if forall|m: usize| d.contains(m) { lemma_count(d, usize::MAX + 1); }
}
pub open spec fn until(m: usize, next: usize) -> int { if m >= next { m - next } else { m - next + usize::MAX + 1 } }
%mod mutation src/mutation.rs
%use crate::sp::*
%use crate::mu::*
%use crate::path::pwf
%use crate::meta::mp_ok
%fn mutate(a_s, a_v, a_mp, a_ctx, a_rng)
    requires wf(a_s.0), conf(a_s.0, a_v.0), mp_ok(*a_mp), pwf(old(a_ctx).0),
    ensures conf(a_s.0, r.0),
        mutated(a_s.0, a_v.0, r.0, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        fzero(a_mp.mutation_prob) ==> veq(a_v.0, r.0),
        pwf(final(a_ctx).0),
%at end
    proof { if fzero(a_mp.mutation_prob) { lemma_zero_identity(a_s.0, a_v.0, r.0, true, fone(a_mp.mutation_prob)); } }
%fn do_mutate(a_v, a_s, a_mp, a_ctx, a_rng)
    requires wf(*a_s), conf(*a_s, *a_v), mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures conf(*a_s, r),
        mutated(*a_s, *a_v, r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        forall|a: Map<usize, Box<value::Node>>| am_src(*a_s, a, *a_v) ==> #[trigger] am_new(*a_s, a, r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        pwf(*final(a_ctx)),
    decreases a_s, 1int,
%at end
    proof {
        assert(mutated(*a_s, *a_v, r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)));
        assert forall|a: Map<usize, Box<value::Node>>| am_src(*a_s, a, *a_v) implies #[trigger] am_new(*a_s, a, r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)) by { lemma_am_new(*a_s, a, *a_v, r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)); }
    }
%fn mutate_sub(a_map, a_vm, a_mp, a_ctx, a_rng)
    requires wf(spec::Node::Sub { map: *a_map }), conf(spec::Node::Sub { map: *a_map }, value::Node::Sub(*a_vm)), mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures conf(spec::Node::Sub { map: *a_map }, r),
        mutated(spec::Node::Sub { map: *a_map }, value::Node::Sub(*a_vm), r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        pwf(*final(a_ctx)),
    decreases a_map, 0int,
%loop 0 HashMap<String, Box<value::Node>>
    enumerates($all, a_map@), pwf(*a_ctx),
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) <==> a_map@.dom().contains(k) && kidx($all, k) < $pos,
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) ==> conf(*a_map@[k], *$out@[k]) && mutated(*a_map@[k], *a_vm@[k], *$out@[k], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
%at end
    proof {
        assert(a_map@.dom() =~= r->Sub_0@.dom()); assert(a_vm@.dom() =~= r->Sub_0@.dom());
        assert(forall|k: Seq<char>| #[trigger] a_map@.dom().contains(k) ==> mutated(*a_map@[k], *a_vm@[k], *r->Sub_0@[k], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)));
    }
%fn static:COIN_FLIP
%fn mutate_array(a_vt, a_el, a_mp, a_ctx, a_rng)
    requires wf(*a_vt), forall|i: int| 0 <= i < a_el@.len() ==> conf(*a_vt, *#[trigger] a_el@[i]), mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures r is Array, r->Array_0@.len() == a_el@.len(),
        forall|i: int| 0 <= i < a_el@.len() ==> conf(*a_vt, *#[trigger] r->Array_0@[i]),
        forall|i: int| 0 <= i < a_el@.len() ==> mutated(*a_vt, *#[trigger] a_el@[i], *r->Array_0@[i], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        pwf(*final(a_ctx)),
    decreases a_vt, 2int,
%loop 0 Vec<Box<value::Node>>
    seq_refs($all, a_el@), pwf(*a_ctx), $out@.len() == $pos,
    forall|i: int| 0 <= i < $pos ==> conf(*a_vt, *#[trigger] $out@[i]),
    forall|i: int| 0 <= i < $pos ==> mutated(*a_vt, *#[trigger] a_el@[i], *$out@[i], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
%fn mutate_anon_map(a_vt, a_min, a_max, a_vm, a_mp, a_ctx, a_rng)
    requires wf(*a_vt), forall|k: usize| #[trigger] a_vm@.dom().contains(k) ==> conf(*a_vt, *a_vm@[k]), n_in(a_vm@.dom().len() as int, *a_min, *a_max),
        *a_min is Some && *a_max is Some ==> a_min->Some_0 < a_max->Some_0, *a_max is Some ==> a_max->Some_0 > 0,
        mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures r is AnonMap,
        forall|k: usize| #[trigger] r->AnonMap_0@.dom().contains(k) ==> conf(*a_vt, *r->AnonMap_0@[k]),
        n_in(r->AnonMap_0@.dom().len() as int, *a_min, *a_max),
        forall|s: spec::Node| s is AnonMap && *s->AnonMap_value_type == *a_vt ==> #[trigger] mutated(s, value::Node::AnonMap(*a_vm), r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        pwf(*final(a_ctx)),
    decreases a_vt, 2int,
%at start
    proof { lemma_missing(a_vm@.dom()); }
%loop 0
    invariant_except_break $brk is None, pwf(*a_ctx), !a_vm@.dom().contains(missing(a_vm@.dom())),
    ensures pwf(*a_ctx), $brk is Some, !a_vm@.dom().contains($brk->Some_0),
    decreases until(missing(a_vm@.dom()), a_ctx.key_mgr.next_key),
%loop 1 HashMap<usize, Box<value::Node>>
    enumerates($all, a_vm@), pwf(*a_ctx),
    forall|k: usize| #[trigger] $out@.dom().contains(k) <==> a_vm@.dom().contains(k) && kidx($all, k) < $pos,
    forall|k: usize| #[trigger] $out@.dom().contains(k) ==> conf(*a_vt, *$out@[k]) && mutated(*a_vt, *a_vm@[k], *$out@[k], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
%at afterloop 1
    proof { assert($out@.dom() =~= a_vm@.dom()); }
%at end
    proof {
        let a = a_vm@; let b = r->AnonMap_0@;
        if !(a.dom() =~= b.dom()) {
            if b.dom().len() < a.dom().len() { let k = choose|k: usize| a.dom().contains(k) && !b.dom().contains(k); assert(am_removed(a, b, k)); }
            else { let k = choose|k: usize| !a.dom().contains(k) && b.dom().contains(k); assert(am_added(a, b, k)); assert(am_new(*a_vt, a, *b[k], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob))); }
        }
%if C13 C17
        assert(fone(a_mp.mutation_prob) ==> !(a.dom() =~= b.dom()));
        assert(fzero(a_mp.mutation_prob) ==> (a.dom() =~= b.dom()));
%endif
        assert(forall|k: usize| #[trigger] a.dom().contains(k) && b.dom().contains(k) ==> mutated(*a_vt, *a[k], *b[k], fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)));
    }
%fn mutate_variant(a_map, a_name, a_v, a_mp, a_ctx, a_rng)
    requires a_map@.dom().len() >= 2, forall|k: Seq<char>| #[trigger] a_map@.dom().contains(k) ==> wf(*a_map@[k]),
        a_map@.dom().contains(a_name@), conf(*a_map@[a_name@], *a_v), mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures r is Variant,
        forall|s: spec::Node| s is Variant && s->Variant_map == *a_map ==> #[trigger] conf(s, r),
        forall|s: spec::Node, v: value::Node| s is Variant && s->Variant_map == *a_map && v is Variant && v->Variant_0@ == a_name@ && *v->Variant_1 == *a_v ==> #[trigger] mutated(s, v, r, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        pwf(*final(a_ctx)),
    decreases a_map, 0int,
%loop 0 Vec<&String>
    enum_keys($all, a_map@),
    forall|i: int| 0 <= i < $out@.len() ==> a_map@.dom().contains((#[trigger] $out@[i])@) && $out@[i]@ != a_name@,
    $out@.len() == 0 ==> forall|i: int| 0 <= i < $pos ==> (#[trigger] $all[i])@ == a_name@,
%at afterloop 0
    proof { if $out@.len() == 0 { lemma_other_key(a_map@.dom(), a_name@); let k = choose|k: Seq<char>| a_map@.dom().contains(k) && k != a_name@; assert($all[kidx2($all, k)]@ == k); } }
%fn mutate_enum(a_vals, a_cur, a_mp, a_ctx, a_rng)
    requires exists|i: int| 0 <= i < a_vals@.len() && (#[trigger] a_vals@[i])@ == a_cur@,
        exists|i: int, j: int| 0 <= i < a_vals@.len() && 0 <= j < a_vals@.len() && (#[trigger] a_vals@[i])@ != (#[trigger] a_vals@[j])@, mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures r is Enum, exists|i: int| 0 <= i < a_vals@.len() && (#[trigger] a_vals@[i])@ == r->Enum_0@,
%if C13 C17
        fzero(a_mp.mutation_prob) ==> r->Enum_0@ == a_cur@,
        fone(a_mp.mutation_prob) ==> r->Enum_0@ != a_cur@,
%endif
        *final(a_ctx) == *old(a_ctx),
%loop 0 Vec<&String>
    seq_refs($all, a_vals@),
    forall|i: int| 0 <= i < $out@.len() ==> $out@[i]@ != a_cur@ && exists|j: int| 0 <= j < a_vals@.len() && (#[trigger] a_vals@[j])@ == (#[trigger] $out@[i])@,
    $out@.len() == 0 ==> forall|i: int| 0 <= i < $pos ==> (#[trigger] a_vals@[i])@ == a_cur@,
%fn mutate_optional(a_v, a_s, a_mp, a_ctx, a_rng)
    requires wf(*a_s), a_v is Some ==> conf(*a_s, *a_v->Some_0), mp_ok(*a_mp), pwf(*old(a_ctx)),
    ensures r is Optional, r->Optional_0 is Some ==> conf(*a_s, *r->Optional_0->Some_0),
%if C13 C17
        fzero(a_mp.mutation_prob) ==> (a_v is Some) == (r->Optional_0 is Some),
        fone(a_mp.mutation_prob) ==> (a_v is Some) != (r->Optional_0 is Some),
%endif
        a_v is Some && r->Optional_0 is Some ==> mutated(*a_s, *a_v->Some_0, *r->Optional_0->Some_0, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        a_v is None && r->Optional_0 is Some ==> exists|e: value::Node| #[trigger] is_init(*a_s, e) && mutated(*a_s, e, *r->Optional_0->Some_0, fzero(a_mp.mutation_prob), fone(a_mp.mutation_prob)),
        pwf(*final(a_ctx)),
    decreases a_s, 2int,
%fn mutate_cauchy(a_v, a_scale, a_mp, a_rng)
    requires mp_ok(*a_mp),
%at start
    proof { ax_mul(a_scale, a_mp.mutation_scale); }
%fn mutate_real(a_v, a_scale, a_min, a_max, a_mp, a_rng)
    requires isfin(a_v), f_in(a_v, a_min, a_max), a_min is Some && a_max is Some ==> fle(a_min->Some_0, a_max->Some_0), mp_ok(*a_mp),
    ensures isfin(r), f_in(r, a_min, a_max),
%if C13 C17
        fzero(a_mp.mutation_prob) ==> r == a_v,
%endif
%fn mutate_int(a_v, a_scale, a_min, a_max, a_mp, a_rng)
    requires i_in(a_v, a_min, a_max), a_min is Some && a_max is Some ==> a_min->Some_0 <= a_max->Some_0, mp_ok(*a_mp),
    ensures i_in(r, a_min, a_max),
%if C13 C17
        fzero(a_mp.mutation_prob) ==> r == a_v,
%endif
%fn mutate_bool(a_v, a_mp, a_rng)
    requires mp_ok(*a_mp),
%if C13 C17
    ensures fzero(a_mp.mutation_prob) ==> r == a_v,
        fone(a_mp.mutation_prob) ==> r == !a_v,
%else
    ensures true,
%endif
