%% C12 (and the recombination halves of C01, C15, C17)
%mod spec_util src/spec_util.rs
%fn is_leaf(a_s)
    ensures r == (*a_s is Bool || *a_s is Real || *a_s is Int || *a_s is Enum || *a_s is Const),

%mod selection src/selection.rs
%types SelectionImpl
%raw
%if C17
/// rank-ordered selection: each rank in turn is taken with probability p, else a uniform draw
pub open spec fn sel_idx(g: StdRng, p: f64, n: int, i: int) -> int
    decreases n - i
{
    if i >= n { pick(g, n) } else if bern(g, p) { i } else { sel_idx(bern_next(g, p), p, n, i + 1) }
}
/// the distribution of `sel_idx` for independent draws: P(first success is i) + P(no success) / n
pub open spec fn pw(q: real, i: nat) -> real decreases i { if i == 0 { 1real } else { q * pw(q, (i - 1) as nat) } }
pub open spec fn rank_prob(p: real, n: nat, i: nat) -> real { p * pw(1real - p, i) + pw(1real - p, n) / (n as real) }
pub proof fn lemma_pw_pos(q: real, i: nat)
    requires q >= 0real
    ensures pw(q, i) >= 0real
    decreases i
{ if i > 0 { lemma_pw_pos(q, (i - 1) as nat); let a = pw(q, (i - 1) as nat); assert(q * a >= 0real) by (nonlinear_arith) requires q >= 0real, a >= 0real; } }
/// C17: the probability of picking rank i never increases with i
pub proof fn lemma_selection_favours_better(p: real, n: nat, i: nat)
    requires 0real <= p <= 1real, n > 0
    ensures rank_prob(p, n, i + 1) <= rank_prob(p, n, i)
{
    lemma_pw_pos(1real - p, i);
    let a = pw(1real - p, i);
    assert(pw(1real - p, (i + 1) as nat) == (1real - p) * a);
    assert(p * ((1real - p) * a) <= p * a) by (nonlinear_arith) requires 0real <= p <= 1real, a >= 0real;
}
%endif
%trait Selection
%fn Selection::select_ref(a_ind, a_p, a_rng)
    requires a_ind@.len() > 0, is_prob(a_p),
    ensures exists|i: int| 0 <= i < a_ind@.len() && *r == *#[trigger] a_ind@[i],
%fn Selection::select_value(a_ind, a_p, a_rng)
    requires a_ind@.len() > 0, is_prob(a_p),
    ensures exists|i: int| 0 <= i < a_ind@.len() && cloned(#[trigger] a_ind@[i], r),
%loop 0 Vec<&T>
    seq_refs($all, a_ind@), $out@.len() == $pos, forall|i: int| 0 <= i < $pos ==> *(#[trigger] $out@[i]) == a_ind@[i],
%fn SelectionImpl::new
%traitimpl Selection for SelectionImpl
%fn select_ref(a_ind, a_p, a_rng)
%if C17
    ensures r == a_ind@[sel_idx(*old(a_rng), a_p, a_ind@.len() as int, 0)],
%endif
%loop 0
    seq_refs($all, a_ind@),
%if C17
    sel_idx(*old(a_rng), a_p, a_ind@.len() as int, 0) == sel_idx(*a_rng, a_p, a_ind@.len() as int, $pos),
%endif
%endimpl

%mod rc
%raw
use crate::spec::Node as S;
use crate::value::Node as V;
use crate::sp::*;
/// the values in a list of references
pub open spec fn vset(s: Seq<&V>) -> ISet<V> { ISet::new(|x: V| exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == x) }
pub open spec fn ovset(s: Seq<Option<&V>>) -> ISet<V> { ISet::new(|x: V| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some && *s[i]->Some_0 == x) }
/// what the parents hold at a position below theirs
pub open spec fn at_key(ps: ISet<V>, k: Seq<char>) -> ISet<V> { ISet::new(|x: V| exists|p: V| #[trigger] ps.contains(p) && p is Sub && p->Sub_0@.dom().contains(k) && *p->Sub_0@[k] == x) }
pub open spec fn at_idx(ps: ISet<V>, i: int) -> ISet<V> { ISet::new(|x: V| exists|p: V| #[trigger] ps.contains(p) && p is Array && 0 <= i < p->Array_0@.len() && *p->Array_0@[i] == x) }
pub open spec fn at_mkey(ps: ISet<V>, k: usize) -> ISet<V> { ISet::new(|x: V| exists|p: V| #[trigger] ps.contains(p) && p is AnonMap && p->AnonMap_0@.dom().contains(k) && *p->AnonMap_0@[k] == x) }
pub open spec fn at_opt(ps: ISet<V>, n: Seq<char>) -> ISet<V> { ISet::new(|x: V| exists|p: V| #[trigger] ps.contains(p) && p is Variant && p->Variant_0@ == n && *p->Variant_1 == x) }
pub open spec fn at_some(ps: ISet<V>) -> ISet<V> { ISet::new(|x: V| exists|p: V| #[trigger] ps.contains(p) && p is Optional && p->Optional_0 is Some && *p->Optional_0->Some_0 == x) }
pub open spec fn all_have(ps: ISet<V>, k: usize) -> bool { forall|p: V| #[trigger] ps.contains(p) ==> p is AnonMap && p->AnonMap_0@.dom().contains(k) }
/// `w` is an offspring of `ps`: everything in it stems from a parent at the same position (C12)
pub open spec fn recomb(s: S, ps: ISet<V>, w: V) -> bool
    decreases s
{
    match (s, w) {
        (S::Const, V::Const) => true,
        (S::Sub { map }, V::Sub(b)) => forall|k: Seq<char>| #[trigger] map@.dom().contains(k) ==> b@.dom().contains(k) && recomb(*map@[k], at_key(ps, k), *b@[k]),
        (S::Array { value_type, size }, V::Array(b)) => forall|i: int| 0 <= i < b@.len() ==> recomb(*value_type, at_idx(ps, i), *#[trigger] b@[i]),
        (S::AnonMap { value_type, max_size, .. }, V::AnonMap(b)) => (forall|k: usize| #[trigger] b@.dom().contains(k) ==> (exists|p: V| #[trigger] ps.contains(p) && p is AnonMap && p->AnonMap_0@.dom().contains(k)) && recomb(*value_type, at_mkey(ps, k), *b@[k]))
            // an element all parents have is only dropped when the map is full
            && (forall|k: usize| all_have(ps, k) ==> #[trigger] b@.dom().contains(k) || max_size is Some && b@.dom().len() >= max_size->Some_0),
        (S::Variant { map, .. }, V::Variant(n, y)) => map@.dom().contains(n@) && (exists|p: V| #[trigger] ps.contains(p) && p is Variant && p->Variant_0@ == n@) && recomb(*map@[n@], at_opt(ps, n@), *y),
        (S::Optional { value_type, .. }, V::Optional(None)) => exists|p: V| #[trigger] ps.contains(p) && p == V::Optional(None),
        (S::Optional { value_type, .. }, V::Optional(Some(y))) => (exists|p: V| #[trigger] ps.contains(p) && p is Optional && p->Optional_0 is Some) && recomb(*value_type, at_some(ps), *y),
        (S::Real { .. }, V::Real(x)) => ps.contains(w),
        (S::Int { .. }, V::Int(x)) => ps.contains(w),
        (S::Bool { .. }, V::Bool(x)) => ps.contains(w),
        (S::Enum { .. }, V::Enum(x)) => ps.contains(w),
        _ => false,
    }
}
pub open spec fn all_conf(s: S, ps: ISet<V>) -> bool { forall|p: V| #[trigger] ps.contains(p) ==> conf(s, p) }
/// a parent is an offspring of its set
pub proof fn lemma_self(s: S, ps: ISet<V>, w: V)
    requires ps.contains(w), all_conf(s, ps)
    ensures recomb(s, ps, w)
    decreases s
{
    match (s, w) {
        (S::Sub { map }, V::Sub(b)) => { assert forall|k: Seq<char>| #[trigger] map@.dom().contains(k) implies b@.dom().contains(k) && recomb(*map@[k], at_key(ps, k), *b@[k]) by {
            assert forall|x: V| #[trigger] at_key(ps, k).contains(x) implies conf(*map@[k], x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Sub && p->Sub_0@.dom().contains(k) && *p->Sub_0@[k] == x; assert(conf(s, p)); }
            assert(at_key(ps, k).contains(*b@[k])); lemma_self(*map@[k], at_key(ps, k), *b@[k]); } }
        (S::Array { value_type, size }, V::Array(b)) => { assert forall|i: int| 0 <= i < b@.len() implies recomb(*value_type, at_idx(ps, i), *#[trigger] b@[i]) by {
            assert forall|x: V| #[trigger] at_idx(ps, i).contains(x) implies conf(*value_type, x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Array && 0 <= i < p->Array_0@.len() && *p->Array_0@[i] == x; assert(conf(s, p)); }
            assert(at_idx(ps, i).contains(*b@[i])); lemma_self(*value_type, at_idx(ps, i), *b@[i]); } }
        (S::AnonMap { value_type, .. }, V::AnonMap(b)) => { assert forall|k: usize| #[trigger] b@.dom().contains(k) implies recomb(*value_type, at_mkey(ps, k), *b@[k]) by {
            assert forall|x: V| #[trigger] at_mkey(ps, k).contains(x) implies conf(*value_type, x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is AnonMap && p->AnonMap_0@.dom().contains(k) && *p->AnonMap_0@[k] == x; assert(conf(s, p)); }
            assert(at_mkey(ps, k).contains(*b@[k])); lemma_self(*value_type, at_mkey(ps, k), *b@[k]); } }
        (S::Variant { map, .. }, V::Variant(n, y)) => {
            assert forall|x: V| #[trigger] at_opt(ps, n@).contains(x) implies conf(*map@[n@], x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Variant && p->Variant_0@ == n@ && *p->Variant_1 == x; assert(conf(s, p)); }
            assert(conf(s, w)); assert(at_opt(ps, n@).contains(*y)); lemma_self(*map@[n@], at_opt(ps, n@), *y); }
        (S::Optional { value_type, .. }, V::Optional(Some(y))) => {
            assert forall|x: V| #[trigger] at_some(ps).contains(x) implies conf(*value_type, x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Optional && p->Optional_0 is Some && *p->Optional_0->Some_0 == x; assert(conf(s, p)); }
            assert(at_some(ps).contains(*y)); lemma_self(*value_type, at_some(ps), *y); }
        _ => { assert(conf(s, w)); }
    }
}
%raw
/// broadcast facts about the sets
pub broadcast proof fn lemma_vset_push(s: Seq<&V>, x: &V)
    ensures #[trigger] vset(s.push(x)) == vset(s).insert(*x)
{
    assert forall|y: V| vset(s.push(x)).contains(y) <==> vset(s).insert(*x).contains(y) by {
        if vset(s).contains(y) { let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == y; assert(s.push(x)[i] == s[i]); }
        if y == *x { assert(s.push(x)[s.len() as int] == x); }
        if vset(s.push(x)).contains(y) && y != *x { let i = choose|i: int| 0 <= i < s.push(x).len() && *#[trigger] s.push(x)[i] == y; assert(s.push(x)[i] == s[i]); }
    }
    assert(vset(s.push(x)) =~= vset(s).insert(*x));
}
pub broadcast proof fn lemma_ovset_push(s: Seq<Option<&V>>, x: Option<&V>)
    ensures #[trigger] ovset(s.push(x)) == if x is Some { ovset(s).insert(*x->Some_0) } else { ovset(s) }
{
    let t = if x is Some { ovset(s).insert(*x->Some_0) } else { ovset(s) };
    assert forall|y: V| ovset(s.push(x)).contains(y) <==> t.contains(y) by {
        if ovset(s).contains(y) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some && *s[i]->Some_0 == y; assert(s.push(x)[i] == s[i]); }
        if x is Some && y == *x->Some_0 { assert(s.push(x)[s.len() as int] == x); }
        if ovset(s.push(x)).contains(y) && !(x is Some && y == *x->Some_0) { let i = choose|i: int| 0 <= i < s.push(x).len() && (#[trigger] s.push(x)[i]) is Some && *s.push(x)[i]->Some_0 == y; assert(s.push(x)[i] == s[i]); }
    }
    assert(ovset(s.push(x)) =~= t);
}
pub broadcast proof fn lemma_vset_empty(s: Seq<&V>)
    requires s.len() == 0
    ensures #[trigger] vset(s) == ISet::<V>::empty()
{ assert(vset(s) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_ovset_empty(s: Seq<Option<&V>>)
    requires s.len() == 0
    ensures #[trigger] ovset(s) == ISet::<V>::empty()
{ assert(ovset(s) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_at_key_insert(ps: ISet<V>, p: V, k: Seq<char>)
    ensures #[trigger] at_key(ps.insert(p), k) == if p is Sub && p->Sub_0@.dom().contains(k) { at_key(ps, k).insert(*p->Sub_0@[k]) } else { at_key(ps, k) }
{
    let t = if p is Sub && p->Sub_0@.dom().contains(k) { at_key(ps, k).insert(*p->Sub_0@[k]) } else { at_key(ps, k) };
    assert forall|x: V| at_key(ps.insert(p), k).contains(x) <==> t.contains(x) by {
        if at_key(ps, k).contains(x) { let q = choose|p: V| #[trigger] ps.contains(p) && p is Sub && p->Sub_0@.dom().contains(k) && *p->Sub_0@[k] == x; assert(ps.insert(p).contains(q)); }
        if p is Sub && p->Sub_0@.dom().contains(k) && x == *p->Sub_0@[k] { assert(ps.insert(p).contains(p)); }
        if at_key(ps.insert(p), k).contains(x) { let q = choose|q: V| #[trigger] ps.insert(p).contains(q) && q is Sub && q->Sub_0@.dom().contains(k) && *q->Sub_0@[k] == x; if q != p { assert(ps.contains(q)); } }
    }
    assert(at_key(ps.insert(p), k) =~= t);
}
pub broadcast proof fn lemma_at_key_empty(k: Seq<char>)
    ensures #[trigger] at_key(ISet::<V>::empty(), k) == ISet::<V>::empty()
{ assert(at_key(ISet::<V>::empty(), k) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_at_idx_insert(ps: ISet<V>, p: V, k: int)
    ensures #[trigger] at_idx(ps.insert(p), k) == if p is Array && 0 <= k < p->Array_0@.len() { at_idx(ps, k).insert(*p->Array_0@[k]) } else { at_idx(ps, k) }
{
    let t = if p is Array && 0 <= k < p->Array_0@.len() { at_idx(ps, k).insert(*p->Array_0@[k]) } else { at_idx(ps, k) };
    assert forall|x: V| at_idx(ps.insert(p), k).contains(x) <==> t.contains(x) by {
        if at_idx(ps, k).contains(x) { let q = choose|p: V| #[trigger] ps.contains(p) && p is Array && 0 <= k < p->Array_0@.len() && *p->Array_0@[k] == x; assert(ps.insert(p).contains(q)); }
        if p is Array && 0 <= k < p->Array_0@.len() && x == *p->Array_0@[k] { assert(ps.insert(p).contains(p)); }
        if at_idx(ps.insert(p), k).contains(x) { let q = choose|q: V| #[trigger] ps.insert(p).contains(q) && q is Array && 0 <= k < q->Array_0@.len() && *q->Array_0@[k] == x; if q != p { assert(ps.contains(q)); } }
    }
    assert(at_idx(ps.insert(p), k) =~= t);
}
pub broadcast proof fn lemma_at_idx_empty(k: int)
    ensures #[trigger] at_idx(ISet::<V>::empty(), k) == ISet::<V>::empty()
{ assert(at_idx(ISet::<V>::empty(), k) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_at_mkey_insert(ps: ISet<V>, p: V, k: usize)
    ensures #[trigger] at_mkey(ps.insert(p), k) == if p is AnonMap && p->AnonMap_0@.dom().contains(k) { at_mkey(ps, k).insert(*p->AnonMap_0@[k]) } else { at_mkey(ps, k) }
{
    let t = if p is AnonMap && p->AnonMap_0@.dom().contains(k) { at_mkey(ps, k).insert(*p->AnonMap_0@[k]) } else { at_mkey(ps, k) };
    assert forall|x: V| at_mkey(ps.insert(p), k).contains(x) <==> t.contains(x) by {
        if at_mkey(ps, k).contains(x) { let q = choose|p: V| #[trigger] ps.contains(p) && p is AnonMap && p->AnonMap_0@.dom().contains(k) && *p->AnonMap_0@[k] == x; assert(ps.insert(p).contains(q)); }
        if p is AnonMap && p->AnonMap_0@.dom().contains(k) && x == *p->AnonMap_0@[k] { assert(ps.insert(p).contains(p)); }
        if at_mkey(ps.insert(p), k).contains(x) { let q = choose|q: V| #[trigger] ps.insert(p).contains(q) && q is AnonMap && q->AnonMap_0@.dom().contains(k) && *q->AnonMap_0@[k] == x; if q != p { assert(ps.contains(q)); } }
    }
    assert(at_mkey(ps.insert(p), k) =~= t);
}
pub broadcast proof fn lemma_at_mkey_empty(k: usize)
    ensures #[trigger] at_mkey(ISet::<V>::empty(), k) == ISet::<V>::empty()
{ assert(at_mkey(ISet::<V>::empty(), k) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_at_opt_insert(ps: ISet<V>, p: V, k: Seq<char>)
    ensures #[trigger] at_opt(ps.insert(p), k) == if p is Variant && p->Variant_0@ == k { at_opt(ps, k).insert(*p->Variant_1) } else { at_opt(ps, k) }
{
    let t = if p is Variant && p->Variant_0@ == k { at_opt(ps, k).insert(*p->Variant_1) } else { at_opt(ps, k) };
    assert forall|x: V| at_opt(ps.insert(p), k).contains(x) <==> t.contains(x) by {
        if at_opt(ps, k).contains(x) { let q = choose|p: V| #[trigger] ps.contains(p) && p is Variant && p->Variant_0@ == k && *p->Variant_1 == x; assert(ps.insert(p).contains(q)); }
        if p is Variant && p->Variant_0@ == k && x == *p->Variant_1 { assert(ps.insert(p).contains(p)); }
        if at_opt(ps.insert(p), k).contains(x) { let q = choose|q: V| #[trigger] ps.insert(p).contains(q) && q is Variant && q->Variant_0@ == k && *q->Variant_1 == x; if q != p { assert(ps.contains(q)); } }
    }
    assert(at_opt(ps.insert(p), k) =~= t);
}
pub broadcast proof fn lemma_at_opt_empty(k: Seq<char>)
    ensures #[trigger] at_opt(ISet::<V>::empty(), k) == ISet::<V>::empty()
{ assert(at_opt(ISet::<V>::empty(), k) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_at_some_insert(ps: ISet<V>, p: V)
    ensures #[trigger] at_some(ps.insert(p)) == if p is Optional && p->Optional_0 is Some { at_some(ps).insert(*p->Optional_0->Some_0) } else { at_some(ps) }
{
    let t = if p is Optional && p->Optional_0 is Some { at_some(ps).insert(*p->Optional_0->Some_0) } else { at_some(ps) };
    assert forall|x: V| at_some(ps.insert(p)).contains(x) <==> t.contains(x) by {
        if at_some(ps).contains(x) { let q = choose|p: V| #[trigger] ps.contains(p) && p is Optional && p->Optional_0 is Some && *p->Optional_0->Some_0 == x; assert(ps.insert(p).contains(q)); }
        if p is Optional && p->Optional_0 is Some && x == *p->Optional_0->Some_0 { assert(ps.insert(p).contains(p)); }
        if at_some(ps.insert(p)).contains(x) { let q = choose|q: V| #[trigger] ps.insert(p).contains(q) && q is Optional && q->Optional_0 is Some && *q->Optional_0->Some_0 == x; if q != p { assert(ps.contains(q)); } }
    }
    assert(at_some(ps.insert(p)) =~= t);
}
pub proof fn lemma_at_some_empty() ensures at_some(ISet::<V>::empty()) == ISet::<V>::empty() { assert(at_some(ISet::<V>::empty()) =~= ISet::<V>::empty()); }
pub broadcast proof fn lemma_push_has<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if x == y { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
}
pub broadcast proof fn lemma_push_nodup<T>(s: Seq<T>, x: T)
    requires s.no_duplicates(), !s.contains(x)
    ensures #[trigger] s.push(x).no_duplicates()
{ }
pub broadcast group rc_sets { lemma_push_nodup, lemma_push_has,  lemma_vset_push, lemma_ovset_push, lemma_vset_empty, lemma_ovset_empty, lemma_at_key_insert, lemma_at_key_empty, lemma_at_idx_insert, lemma_at_idx_empty,
    lemma_at_mkey_insert, lemma_at_mkey_empty, lemma_at_opt_insert, lemma_at_opt_empty, lemma_at_some_insert }
pub proof fn lemma_take<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures s.take(i + 1) == s.take(i).push(s[i])
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); }
pub proof fn lemma_in(s: Seq<&V>)
    ensures forall|i: int| 0 <= i < s.len() ==> vset(s).contains(*#[trigger] s[i])
{ }
pub proof fn lemma_conf_sub(map: HashMap<String, Box<S>>, ps: ISet<V>, k: Seq<char>)
    requires all_conf(S::Sub { map }, ps), map@.dom().contains(k)
    ensures all_conf(*map@[k], at_key(ps, k))
{ assert forall|x: V| #[trigger] at_key(ps, k).contains(x) implies conf(*map@[k], x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Sub && p->Sub_0@.dom().contains(k) && *p->Sub_0@[k] == x; assert(conf(S::Sub { map }, p)); } }
pub proof fn lemma_conf_array(s: S, ps: ISet<V>, k: int)
    requires all_conf(s, ps), s is Array
    ensures all_conf(*s->Array_value_type, at_idx(ps, k))
{ assert forall|x: V| #[trigger] at_idx(ps, k).contains(x) implies conf(*s->Array_value_type, x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Array && 0 <= k < p->Array_0@.len() && *p->Array_0@[k] == x; assert(conf(s, p)); } }
pub proof fn lemma_conf_am(s: S, ps: ISet<V>, k: usize)
    requires all_conf(s, ps), s is AnonMap
    ensures all_conf(*s->AnonMap_value_type, at_mkey(ps, k))
{ assert forall|x: V| #[trigger] at_mkey(ps, k).contains(x) implies conf(*s->AnonMap_value_type, x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is AnonMap && p->AnonMap_0@.dom().contains(k) && *p->AnonMap_0@[k] == x; assert(conf(s, p)); } }
pub proof fn lemma_conf_variant(s: S, ps: ISet<V>, k: Seq<char>)
    requires all_conf(s, ps), s is Variant
    ensures all_conf(*s->Variant_map@[k], at_opt(ps, k))
{ assert forall|x: V| #[trigger] at_opt(ps, k).contains(x) implies conf(*s->Variant_map@[k], x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Variant && p->Variant_0@ == k && *p->Variant_1 == x; assert(conf(s, p)); } }
pub proof fn lemma_conf_optional(s: S, ps: ISet<V>)
    requires all_conf(s, ps), s is Optional
    ensures all_conf(*s->Optional_value_type, at_some(ps))
{ assert forall|x: V| #[trigger] at_some(ps).contains(x) implies conf(*s->Optional_value_type, x) by { let p = choose|p: V| #[trigger] ps.contains(p) && p is Optional && p->Optional_0 is Some && *p->Optional_0->Some_0 == x; assert(conf(s, p)); } }
/// the same value, read through the views of maps, vectors and strings
pub open spec fn rveq(v: V, w: V) -> bool
    decreases v
{
    match (v, w) {
        (V::Real(x), V::Real(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Sub(a), V::Sub(b)) => a@.dom() =~= b@.dom() && forall|k: Seq<char>| #[trigger] a@.dom().contains(k) ==> rveq(*a@[k], *b@[k]),
        (V::Array(a), V::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> rveq(*#[trigger] a@[i], *b@[i]),
        (V::AnonMap(a), V::AnonMap(b)) => a@.dom() =~= b@.dom() && forall|k: usize| #[trigger] a@.dom().contains(k) ==> rveq(*a@[k], *b@[k]),
        (V::Variant(n, x), V::Variant(m, y)) => n@ == m@ && rveq(*x, *y),
        (V::Enum(n), V::Enum(m)) => n@ == m@,
        (V::Optional(Some(x)), V::Optional(Some(y))) => rveq(*x, *y),
        (V::Optional(None), V::Optional(None)) => true,
        (V::Const, V::Const) => true,
        _ => false,
    }
}
/// C12: with parents that are all identical (or a single one) the offspring is identical to them
pub proof fn lemma_identical(s: S, ps: ISet<V>, v: V, w: V)
    requires conf(s, v), conf(s, w), recomb(s, ps, w), ps == ISet::<V>::empty().insert(v)
    ensures rveq(v, w)
    decreases s
{
    broadcast use rc_sets;
    lemma_at_some_empty();
    assert(ps.contains(v));
    match (s, v, w) {
        (S::Sub { map }, V::Sub(a), V::Sub(b)) => { assert forall|k: Seq<char>| #[trigger] a@.dom().contains(k) implies rveq(*a@[k], *b@[k]) by { assert(map@.dom().contains(k)); lemma_identical(*map@[k], at_key(ps, k), *a@[k], *b@[k]); } }
        (S::Array { value_type, .. }, V::Array(a), V::Array(b)) => { assert forall|i: int| 0 <= i < a@.len() implies rveq(*#[trigger] a@[i], *b@[i]) by { assert(recomb(*value_type, at_idx(ps, i), *b@[i])); lemma_identical(*value_type, at_idx(ps, i), *a@[i], *b@[i]); } }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(a), V::AnonMap(b)) => {
            assert(b@.dom().subset_of(a@.dom()));
            if !(b@.dom() =~= a@.dom()) {
                let k = choose|k: usize| a@.dom().contains(k) && !b@.dom().contains(k);
                assert(b@.dom().subset_of(a@.dom().remove(k)));
                vstd::set_lib::lemma_len_subset(b@.dom(), a@.dom().remove(k));
                assert(forall|p: V| #[trigger] ps.contains(p) ==> p == v);
                assert(false);
            }
            assert forall|k: usize| #[trigger] a@.dom().contains(k) implies rveq(*a@[k], *b@[k]) by { assert(b@.dom().contains(k)); lemma_identical(*value_type, at_mkey(ps, k), *a@[k], *b@[k]); } }
        (S::Variant { map, .. }, V::Variant(n, x), V::Variant(m, y)) => { assert(n@ == m@); lemma_identical(*map@[m@], at_opt(ps, m@), *x, *y); }
        (S::Optional { value_type, .. }, V::Optional(Some(x)), V::Optional(Some(y))) => { lemma_identical(*value_type, at_some(ps), *x, *y); }
        _ => { }
    }
}
%mod crossover src/crossover.rs
%use crate::sp::*
%use crate::rc::*
%use crate::path::pwf
%use crate::meta::cp_ok
%types Crossover
%raw
pub open spec fn vals(s: Seq<&Value>) -> Seq<&value::Node> { s.map_values(|v: &Value| &v.0) }
pub open spec fn has_key(v: value::Node, k: usize) -> bool { v is AnonMap && v->AnonMap_0@.dom().contains(k) }
pub open spec fn in_all(s: Seq<&value::Node>, k: usize) -> bool { forall|i: int| 0 <= i < s.len() ==> has_key(*#[trigger] s[i], k) }
pub open spec fn in_some(s: Seq<&value::Node>, k: usize) -> bool { exists|i: int| 0 <= i < s.len() && has_key(*#[trigger] s[i], k) }
pub proof fn lemma_union_size(ind: Seq<&value::Node>, ks: Seq<usize>)
    requires ks.no_duplicates(), forall|i: int, k: usize| 0 <= i < ind.len() && #[trigger] has_key(*ind[i], k) ==> ks.contains(k)
    ensures forall|i: int| 0 <= i < ind.len() && (*#[trigger] ind[i]) is AnonMap ==> ind[i]->AnonMap_0@.dom().len() <= ks.len()
{
    ks.unique_seq_to_set();
    assert forall|i: int| 0 <= i < ind.len() && (*#[trigger] ind[i]) is AnonMap implies ind[i]->AnonMap_0@.dom().len() <= ks.len() by {
        assert forall|k: usize| ind[i]->AnonMap_0@.dom().contains(k) implies ks.to_set().contains(k) by { assert(has_key(*ind[i], k)); }
        vstd::set_lib::lemma_len_subset(ind[i]->AnonMap_0@.dom(), ks.to_set());
    }
}
pub proof fn lemma_shuffled(a: Seq<usize>, b: Seq<usize>)
    requires a.no_duplicates(), a.to_multiset() == b.to_multiset()
    ensures b.no_duplicates(), a.len() == b.len(), forall|k: usize| #[trigger] a.contains(k) <==> b.contains(k)
{
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|k: usize| #[trigger] a.contains(k) <==> b.contains(k) by { assert(a.contains(k) <==> a.to_multiset().count(k) > 0); assert(b.contains(k) <==> b.to_multiset().count(k) > 0); }
}
%fn Crossover::crossover(a_s, a_ind, a_cp, a_ctx, a_rng)
    requires wf(a_s.0), a_ind@.len() > 0, all_conf(a_s.0, vset(vals(a_ind@))), cp_ok(*a_cp), pwf(old(a_ctx).0),
    ensures conf(a_s.0, r.0), recomb(a_s.0, vset(vals(a_ind@)), r.0), pwf(final(a_ctx).0),
        forall|i: int| 0 <= i < a_ind@.len() && (forall|j: int| 0 <= j < a_ind@.len() ==> #[trigger] a_ind@[j].0 == a_ind@[0].0) ==> rveq(#[trigger] a_ind@[i].0, r.0),
%loop 0 Vec<&value::Node>
    seq_refs($all, a_ind@), $out@ =~= vals(a_ind@.take($pos)),
%at afterloop 0
    proof { assert(a_ind@.take($pos as int) =~= a_ind@); }
%at end
    proof {
        if forall|j: int| 0 <= j < a_ind@.len() ==> #[trigger] a_ind@[j].0 == a_ind@[0].0 {
            assert(vals(a_ind@)[0] == &a_ind@[0].0);
            assert(vset(vals(a_ind@)) =~= ISet::<value::Node>::empty().insert(a_ind@[0].0)) by {
                assert forall|x: value::Node| vset(vals(a_ind@)).contains(x) <==> x == a_ind@[0].0 by {
                    if vset(vals(a_ind@)).contains(x) { let i = choose|i: int| 0 <= i < vals(a_ind@).len() && *#[trigger] vals(a_ind@)[i] == x; assert(a_ind@[i].0 == a_ind@[0].0); }
                }
            }
            lemma_in(vals(a_ind@)); assert(vset(vals(a_ind@)).contains(a_ind@[0].0)); assert(all_conf(a_s.0, vset(vals(a_ind@))));
            lemma_identical(a_s.0, vset(vals(a_ind@)), a_ind@[0].0, r.0);
        }
    }
%fn Crossover::do_crossover_optional(a_s, a_ind, a_cp, a_ctx, a_rng)
    requires wf(*a_s), a_ind@.len() > 0, all_conf(*a_s, ovset(a_ind@)), cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures r is Some ==> conf(*a_s, r->Some_0) && recomb(*a_s, ovset(a_ind@), r->Some_0),
        exists|i: int| 0 <= i < a_ind@.len() && (#[trigger] a_ind@[i] is Some) == (r is Some),
        pwf(*final(a_ctx)),
    decreases a_s, 2int,
%loop 0 Vec<bool>
    seq_refs($all, a_ind@), $out@.no_duplicates(),
    forall|b: bool| #[trigger] $seen@.contains(b) <==> $out@.contains(b),
    forall|i: int| 0 <= i < $pos ==> $seen@.contains((#[trigger] a_ind@[i]) is None),
    forall|b: bool| #[trigger] $seen@.contains(b) ==> exists|i: int| 0 <= i < $pos && ((#[trigger] a_ind@[i]) is None) == b,
%loop 1 Vec<&value::Node>
    seq_refs($all, a_ind@), vset($out@) == ovset(a_ind@.take($pos)),
%at loopstart 1
    proof { broadcast use rc_sets; lemma_take(a_ind@, $pos as int); }
%at afterloop 1
    proof { assert(a_ind@.take($pos as int) =~= a_ind@);
        assert(a_ind@[0] is None || a_ind@[0] is Some);
        let i = choose|i: int| 0 <= i < a_ind@.len() && (#[trigger] a_ind@[i]) is Some; assert(ovset(a_ind@).contains(*a_ind@[i]->Some_0)); }
%at start
    proof { broadcast use rc_sets; assert(vset(Seq::<&value::Node>::empty()) == ISet::<value::Node>::empty()); assert(ovset(a_ind@.take(0)) == ISet::<value::Node>::empty());
        if a_ind@.len() == 1 && a_ind@[0] is Some { assert(ovset(a_ind@).contains(*a_ind@[0]->Some_0)); lemma_self(*a_s, ovset(a_ind@), *a_ind@[0]->Some_0); } }
%fn Crossover::do_crossover(a_s, a_ind, a_cp, a_ctx, a_rng)
    requires wf(*a_s), a_ind@.len() > 0, all_conf(*a_s, vset(a_ind@)), cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures conf(*a_s, r), recomb(*a_s, vset(a_ind@), r), pwf(*final(a_ctx)),
    decreases a_s, 1int,
%at start
    proof { lemma_in(a_ind@); assert forall|i: int| 0 <= i < a_ind@.len() implies conf(*a_s, *#[trigger] a_ind@[i]) && recomb(*a_s, vset(a_ind@), *a_ind@[i]) by { lemma_self(*a_s, vset(a_ind@), *a_ind@[i]); }
        if a_s is Array { assert forall|k: int| #[trigger] all_conf(*a_s->Array_value_type, at_idx(vset(a_ind@), k)) by { lemma_conf_array(*a_s, vset(a_ind@), k); } }
        if a_s is AnonMap { assert forall|k: usize| #[trigger] all_conf(*a_s->AnonMap_value_type, at_mkey(vset(a_ind@), k)) by { lemma_conf_am(*a_s, vset(a_ind@), k); } }
        if a_s is Variant { assert forall|k: Seq<char>| #[trigger] a_s->Variant_map@.dom().contains(k) implies all_conf(*a_s->Variant_map@[k], at_opt(vset(a_ind@), k)) by { lemma_conf_variant(*a_s, vset(a_ind@), k); } }
        if a_s is Optional { lemma_conf_optional(*a_s, vset(a_ind@)); }
    }
%at end
    proof {
        lemma_in(a_ind@);
        assert(a_s is Sub ==> recomb(*a_s, vset(a_ind@), r));
        assert(a_s is Array ==> recomb(*a_s, vset(a_ind@), r));
        assert(a_s is Variant ==> recomb(*a_s, vset(a_ind@), r));
        assert(a_s is Optional ==> recomb(*a_s, vset(a_ind@), r));
        assert(a_s is Real || a_s is Int || a_s is Enum || a_s is Bool || a_s is Const ==> recomb(*a_s, vset(a_ind@), r));
        if r is AnonMap {
            assert forall|k: usize| #[trigger] r->AnonMap_0@.dom().contains(k) implies (exists|p: value::Node| #[trigger] vset(a_ind@).contains(p) && p is AnonMap && p->AnonMap_0@.dom().contains(k)) by {
                if in_some(a_ind@, k) { let i = choose|i: int| 0 <= i < a_ind@.len() && has_key(*#[trigger] a_ind@[i], k); assert(vset(a_ind@).contains(*a_ind@[i])); } else { assert(vset(a_ind@).contains(r)); }
            }
            assert forall|k: usize| #[trigger] all_have(vset(a_ind@), k) implies in_all(a_ind@, k) by { }
            assert(recomb(*a_s, vset(a_ind@), r));
        }
    }
%loop 0
    seq_refs($all, a_ind@),
%loop 1
    seq_refs($all, a_ind@),
%loop 2
    seq_refs($all, a_ind@),
%loop 3
    seq_refs($all, a_ind@),
%fn Crossover::crossover_sub(a_map, a_ind, a_cp, a_ctx, a_rng)
    requires wf(spec::Node::Sub { map: *a_map }), a_ind@.len() > 0, all_conf(spec::Node::Sub { map: *a_map }, vset(a_ind@)), cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures conf(spec::Node::Sub { map: *a_map }, r), recomb(spec::Node::Sub { map: *a_map }, vset(a_ind@), r), pwf(*final(a_ctx)),
    decreases a_map, 0int,
%at start
    proof { lemma_in(a_ind@); assert(forall|i: int| 0 <= i < a_ind@.len() ==> conf(spec::Node::Sub { map: *a_map }, *#[trigger] a_ind@[i])); }
%loop 0 HashMap<String, Box<value::Node>>
    enumerates($all, a_map@), pwf(*a_ctx),
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) <==> a_map@.dom().contains(k) && kidx($all, k) < $pos,
    forall|k: Seq<char>| #[trigger] $out@.dom().contains(k) ==> conf(*a_map@[k], *$out@[k]) && recomb(*a_map@[k], at_key(vset(a_ind@), k), *$out@[k]),
%loop 1 Vec<&value::Node>
    seq_refs($all, a_ind@), $out@.len() == $pos, vset($out@) == at_key(vset(a_ind@.take($pos)), $all0[$pos0 - 1].0@),
%at beforeloop 1
    proof { broadcast use rc_sets; assert(vset(a_ind@.take(0)) == ISet::<value::Node>::empty()); assert(vset(Seq::<&value::Node>::empty()) == ISet::<value::Node>::empty()); }
%at loopstart 1
    proof { broadcast use rc_sets; lemma_take(a_ind@, $pos as int); assert(conf(spec::Node::Sub { map: *a_map }, *a_ind@[$pos as int])); assert(a_map@.dom().contains($all0[$pos0 - 1].0@)); }
%at afterloop 1
    proof { assert(a_ind@.take($pos as int) =~= a_ind@); lemma_conf_sub(*a_map, vset(a_ind@), $all0[$pos0 - 1].0@); }
%at end
    proof { assert(a_map@.dom() =~= r->Sub_0@.dom()); }
%fn Crossover::select_anon_map_keys(a_b, a_ind, a_rng, a_cp)
    requires a_ind@.len() > 0, forall|i: int| 0 <= i < a_ind@.len() ==> (*#[trigger] a_ind@[i]) is AnonMap && n_in(a_ind@[i]->AnonMap_0@.dom().len() as int, a_b.0, a_b.1),
        a_b.0 is Some && a_b.1 is Some ==> a_b.0->Some_0 < a_b.1->Some_0, a_b.1 is Some ==> a_b.1->Some_0 > 0, cp_ok(*a_cp),
    ensures r@.no_duplicates(), n_in(r@.len() as int, a_b.0, a_b.1),
        forall|i: int| 0 <= i < r@.len() ==> in_some(a_ind@, #[trigger] r@[i]),
        forall|k: usize| #[trigger] in_all(a_ind@, k) ==> r@.contains(k) || a_b.1 is Some && r@.len() >= a_b.1->Some_0,
%at start
    let ghost mut gk: Seq<usize> = Seq::empty();
    proof { broadcast use rc_sets; }
%loop 0 Vec<usize>
    seq_refs($all, a_ind@), $out@.no_duplicates(),
    forall|k: usize| #[trigger] $seen@.contains(k) <==> $out@.contains(k),
    forall|i: int| 0 <= i < $out@.len() ==> in_some(a_ind@, #[trigger] $out@[i]),
    forall|i: int, k: usize| 0 <= i < $pos && #[trigger] has_key(*a_ind@[i], k) ==> $seen@.contains(k),
%loop 1 
    enum_keys($all, a_ind@[$pos0 - 1]->AnonMap_0@), $out0@.no_duplicates(),
    forall|k: usize| #[trigger] $seen0@.contains(k) <==> $out0@.contains(k),
    forall|i: int| 0 <= i < $out0@.len() ==> in_some(a_ind@, #[trigger] $out0@[i]),
    forall|i: int, k: usize| 0 <= i < $pos0 - 1 && #[trigger] has_key(*a_ind@[i], k) ==> $seen0@.contains(k),
    forall|i: int| 0 <= i < $pos ==> $seen0@.contains(*#[trigger] $all[i]),
%at afterloop 0
    proof { lemma_union_size(a_ind@, $out@); gk = $out@; }
%at beforeloop 2
    proof { lemma_shuffled(gk, $all);
        assert forall|i: int| 0 <= i < $all.len() implies in_some(a_ind@, #[trigger] $all[i]) by { assert($all.contains($all[i])); assert(gk.contains($all[i])); } }
%at loopstart 2
    proof { broadcast use rc_sets; assert(!$out@.contains($all[$pos as int])); }
%loop 2 nodefault
    invariant_except_break $all.len() > 0 && a_b.1 is Some ==> $out@.len() < a_b.1->Some_0,
    invariant $it.all == $all, 0 <= $pos <= $all.len(), $all.no_duplicates(), $out@.no_duplicates(), $out@.len() <= $pos,
    forall|x: usize| #[trigger] $out@.contains(x) ==> exists|i: int| 0 <= i < $pos && $all[i] == x,
    forall|i: int| 0 <= i < $out@.len() ==> in_some(a_ind@, #[trigger] $out@[i]),
    forall|i: int| 0 <= i < $pos && in_all(a_ind@, #[trigger] $all[i]) ==> $out@.contains($all[i]),
    $out@.len() >= if a_b.0 is Some && a_b.0->Some_0 <= $pos { a_b.0->Some_0 as int } else if a_b.0 is Some { $pos as int } else { 0 },
    a_b.1 is Some ==> $out@.len() <= a_b.1->Some_0,
    ensures $pos == $all.len() || a_b.1 is Some && $out@.len() == a_b.1->Some_0,
    decreases $all.len() - $pos,
%fn Crossover::crossover_array(a_vt, a_size, a_ind, a_cp, a_ctx, a_rng)
    requires a_size >= 2, wf(*a_vt), a_ind@.len() > 0, forall|i: int| 0 <= i < a_ind@.len() ==> (*#[trigger] a_ind@[i]) is Array && a_ind@[i]->Array_0@.len() == a_size,
        forall|k: int| 0 <= k < a_size ==> #[trigger] all_conf(*a_vt, at_idx(vset(a_ind@), k)), cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures r is Array, r->Array_0@.len() == a_size,
        forall|k: int| 0 <= k < a_size ==> conf(*a_vt, *#[trigger] r->Array_0@[k]) && recomb(*a_vt, at_idx(vset(a_ind@), k), *r->Array_0@[k]),
        pwf(*final(a_ctx)),
    decreases a_vt, 2int,
%loop 0 Vec<Vec<&value::Node>>
    seq_refs($all, a_ind@), $out@.len() == $pos,
    forall|i: int| 0 <= i < $pos ==> (#[trigger] $out@[i])@.len() == a_size && forall|j: int| 0 <= j < a_size ==> *#[trigger] $out@[i]@[j] == *a_ind@[i]->Array_0@[j],
%loop 1 Vec<&value::Node>
    seq_refs($all, a_ind@[$pos0 - 1]->Array_0@), $out@.len() == $pos,
    forall|j: int| 0 <= j < $pos ==> *#[trigger] $out@[j] == *a_ind@[$pos0 - 1]->Array_0@[j],
%loop 2 Vec<Box<value::Node>>
    pwf(*a_ctx), $out@.len() == $pos,
    forall|k: int| 0 <= k < $pos ==> conf(*a_vt, *#[trigger] $out@[k]) && recomb(*a_vt, at_idx(vset(a_ind@), k), *$out@[k]),
%loop 3 Vec<&value::Node>
    $all.len() == a_ind@.len(), $out@.len() == $pos, vset($out@) == at_idx(vset(a_ind@.take($pos)), $pos2 - 1),
%at beforeloop 3
    proof { broadcast use rc_sets; assert(vset(a_ind@.take(0)) == ISet::<value::Node>::empty()); assert(vset(Seq::<&value::Node>::empty()) == ISet::<value::Node>::empty()); }
%at loopstart 3
    proof { broadcast use rc_sets; lemma_take(a_ind@, $pos as int); }
%at afterloop 3
    proof { assert(a_ind@.take($pos as int) =~= a_ind@); }
%fn Crossover::crossover_anon_map(a_vt, a_b, a_ind, a_cp, a_ctx, a_rng)
    requires wf(*a_vt), a_ind@.len() > 0, forall|i: int| 0 <= i < a_ind@.len() ==> (*#[trigger] a_ind@[i]) is AnonMap && n_in(a_ind@[i]->AnonMap_0@.dom().len() as int, a_b.0, a_b.1),
        forall|k: usize| #[trigger] all_conf(*a_vt, at_mkey(vset(a_ind@), k)),
        a_b.0 is Some && a_b.1 is Some ==> a_b.0->Some_0 < a_b.1->Some_0, a_b.1 is Some ==> a_b.1->Some_0 > 0, cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures r is AnonMap, n_in(r->AnonMap_0@.dom().len() as int, a_b.0, a_b.1),
        forall|k: usize| #[trigger] r->AnonMap_0@.dom().contains(k) ==> in_some(a_ind@, k) && conf(*a_vt, *r->AnonMap_0@[k]) && recomb(*a_vt, at_mkey(vset(a_ind@), k), *r->AnonMap_0@[k]),
        forall|k: usize| #[trigger] in_all(a_ind@, k) ==> r->AnonMap_0@.dom().contains(k) || a_b.1 is Some && r->AnonMap_0@.dom().len() >= a_b.1->Some_0,
        pwf(*final(a_ctx)),
    decreases a_vt, 2int,
%loop 0 HashMap<usize, Box<value::Node>>
    pwf(*a_ctx),
    $out@.dom().len() == $pos,
    forall|k: usize| #[trigger] $out@.dom().contains(k) <==> (exists|i: int| 0 <= i < $pos && *#[trigger] $all[i] == k),
    forall|k: usize| #[trigger] $out@.dom().contains(k) ==> conf(*a_vt, *$out@[k]) && recomb(*a_vt, at_mkey(vset(a_ind@), k), *$out@[k]),
%loop 1 Vec<&value::Node>
    seq_refs($all, a_ind@), vset($out@) == at_mkey(vset(a_ind@.take($pos)), *$all0[$pos0 - 1]),
%at beforeloop 1
    proof { broadcast use rc_sets; assert(vset(a_ind@.take(0)) == ISet::<value::Node>::empty()); assert(vset(Seq::<&value::Node>::empty()) == ISet::<value::Node>::empty()); }
%at loopstart 1
    proof { broadcast use rc_sets; lemma_take(a_ind@, $pos as int); }
%at afterloop 1
    proof { assert(a_ind@.take($pos as int) =~= a_ind@); lemma_in(a_ind@); assert(in_some(a_ind@, *$all0[$pos0 - 1])); 
        let i = choose|i: int| 0 <= i < a_ind@.len() && has_key(*#[trigger] a_ind@[i], *$all0[$pos0 - 1]);
        assert(at_mkey(vset(a_ind@), *$all0[$pos0 - 1]).contains(*a_ind@[i]->AnonMap_0@[*$all0[$pos0 - 1]])); }
%fn Crossover::crossover_variant(a_map, a_ind, a_cp, a_ctx, a_rng)
    requires a_ind@.len() > 0, forall|k: Seq<char>| #[trigger] a_map@.dom().contains(k) ==> wf(*a_map@[k]) && all_conf(*a_map@[k], at_opt(vset(a_ind@), k)),
        forall|i: int| 0 <= i < a_ind@.len() ==> (*#[trigger] a_ind@[i]) is Variant && a_map@.dom().contains(a_ind@[i]->Variant_0@), cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures r is Variant, a_map@.dom().contains(r->Variant_0@), exists|i: int| 0 <= i < a_ind@.len() && (#[trigger] a_ind@[i])->Variant_0@ == r->Variant_0@,
        conf(*a_map@[r->Variant_0@], *r->Variant_1), recomb(*a_map@[r->Variant_0@], at_opt(vset(a_ind@), r->Variant_0@), *r->Variant_1), pwf(*final(a_ctx)),
    decreases a_map, 0int,
%loop 0 Vec<&String>
    seq_refs($all, a_ind@),
%loop 1 Vec<&value::Node>
    seq_refs($all, a_ind@), vset($out@) == at_opt(vset(a_ind@.take($pos)), selected_variant_name@),
%at beforeloop 1
    proof { broadcast use rc_sets; assert(vset(a_ind@.take(0)) == ISet::<value::Node>::empty()); assert(vset(Seq::<&value::Node>::empty()) == ISet::<value::Node>::empty()); }
%at loopstart 1
    proof { broadcast use rc_sets; lemma_take(a_ind@, $pos as int); }
%at afterloop 1
    proof { assert(a_ind@.take($pos as int) =~= a_ind@); lemma_in(a_ind@);
        let i = choose|i: int| 0 <= i < a_ind@.len() && (#[trigger] a_ind@[i])->Variant_0@ == selected_variant_name@;
        assert(at_opt(vset(a_ind@), selected_variant_name@).contains(*a_ind@[i]->Variant_1)); }
%fn Crossover::crossover_optional(a_vt, a_ind, a_cp, a_ctx, a_rng)
    requires wf(*a_vt), a_ind@.len() > 0, forall|i: int| 0 <= i < a_ind@.len() ==> (*#[trigger] a_ind@[i]) is Optional,
        all_conf(*a_vt, at_some(vset(a_ind@))), cp_ok(*a_cp), pwf(*old(a_ctx)),
    ensures r is Optional, exists|i: int| 0 <= i < a_ind@.len() && (#[trigger] a_ind@[i]->Optional_0 is Some) == (r->Optional_0 is Some),
        r->Optional_0 is Some ==> conf(*a_vt, *r->Optional_0->Some_0) && recomb(*a_vt, at_some(vset(a_ind@)), *r->Optional_0->Some_0), pwf(*final(a_ctx)),
    decreases a_vt, 3int,
%loop 0 Vec<Option<&value::Node>>
    seq_refs($all, a_ind@), $out@.len() == $pos, ovset($out@) == at_some(vset(a_ind@.take($pos))),
    forall|i: int| 0 <= i < $pos ==> ((#[trigger] $out@[i]) is Some) == (a_ind@[i]->Optional_0 is Some),
%at beforeloop 0
    proof { broadcast use rc_sets; lemma_at_some_empty(); assert(vset(a_ind@.take(0)) == ISet::<value::Node>::empty()); assert(ovset(Seq::<Option<&value::Node>>::empty()) == ISet::<value::Node>::empty()); }
%at loopstart 0
    proof { broadcast use rc_sets; lemma_take(a_ind@, $pos as int); }
%at afterloop 0
    proof { assert(a_ind@.take($pos as int) =~= a_ind@); }
