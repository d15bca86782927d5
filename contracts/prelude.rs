// Contracts assumed on the language's and the dependencies' functions (the trusted base), and the
// ghost vocabulary the contracts are written in. Everything marked `external_body`, `axiom` or
// `assume_specification` here is an assumption; check.py lists them in the evidence file.
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused, dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals)]
use vstd::prelude::*;

verus! {
pub mod ext {
use vstd::prelude::*;
use vstd::float::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::Deref;

// ---------------------------------------------------------------- floating point
// A float is its bit pattern; order, finiteness and NaN are defined on the bits. The axioms that
// link the machine operations to these definitions are checked by Kani (kani/, loop-free, all bits).
pub open spec fn bits(x: f64) -> u64 { x.to_bits_spec() }
pub open spec fn mag(x: f64) -> u64 { bits(x) & 0x7fff_ffff_ffff_ffff }
pub open spec fn neg(x: f64) -> bool { bits(x) >= 0x8000_0000_0000_0000 }
pub open spec fn isnan(x: f64) -> bool { mag(x) > 0x7ff0_0000_0000_0000 }
pub open spec fn isfin(x: f64) -> bool { mag(x) < 0x7ff0_0000_0000_0000 }
/// monotone integer image of the non-NaN floats (both zeros are 0)
pub open spec fn fval(x: f64) -> int { if neg(x) { -(mag(x) as int) } else { mag(x) as int } }
pub open spec fn flt(x: f64, y: f64) -> bool { !isnan(x) && !isnan(y) && fval(x) < fval(y) }
pub open spec fn fle(x: f64, y: f64) -> bool { !isnan(x) && !isnan(y) && fval(x) <= fval(y) }
pub open spec fn feq(x: f64, y: f64) -> bool { !isnan(x) && !isnan(y) && fval(x) == fval(y) }
/// 0.0, 1.0 as bit patterns
pub open spec fn fzero(x: f64) -> bool { !isnan(x) && fval(x) == 0 }
pub open spec fn fone(x: f64) -> bool { bits(x) == 0x3ff0_0000_0000_0000 }
pub open spec fn is_prob(x: f64) -> bool { !isnan(x) && 0 <= fval(x) <= 0x3ff0_0000_0000_0000 }
pub open spec fn fpos(x: f64) -> bool { isfin(x) && fval(x) > 0 }
pub broadcast axiom fn ax_f64_partial_cmp(x: f64, y: f64)
    ensures #[trigger] x.partial_cmp_spec(&y) ==
        if isnan(x) || isnan(y) { None }
        else if fval(x) < fval(y) { Some(core::cmp::Ordering::Less) }
        else if fval(x) == fval(y) { Some(core::cmp::Ordering::Equal) }
        else { Some(core::cmp::Ordering::Greater) };
pub broadcast axiom fn ax_f64_eq(x: f64, y: f64) ensures #[trigger] x.eq_spec(&y) == feq(x, y);
pub broadcast axiom fn ax_f64_bits_inj(x: f64, y: f64)
    ensures #![trigger x.to_bits_spec(), y.to_bits_spec()] x.to_bits_spec() == y.to_bits_spec() ==> x == y;
pub axiom fn ax_f64_obeys()
    ensures <f64 as PartialOrdSpec>::obeys_partial_cmp_spec(), <f64 as PartialEqSpec>::obeys_eq_spec();
pub proof fn lemma_mag(b: u64)
    ensures b < 0x8000_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == b,
        b >= 0x8000_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == b - 0x8000_0000_0000_0000,
        b & 0x7fff_ffff_ffff_ffff <= 0x7fff_ffff_ffff_ffff,
{
    assert(b < 0x8000_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == b) by (bit_vector);
    assert(b >= 0x8000_0000_0000_0000 ==> b & 0x7fff_ffff_ffff_ffff == (b - 0x8000_0000_0000_0000)) by (bit_vector);
    assert(b & 0x7fff_ffff_ffff_ffff <= 0x7fff_ffff_ffff_ffff) by (bit_vector);
}
pub broadcast proof fn lemma_mag_of(x: f64)
    ensures #[trigger] mag(x) == if bits(x) < 0x8000_0000_0000_0000 { bits(x) as int } else { bits(x) - 0x8000_0000_0000_0000 }
{ lemma_mag(bits(x)); }

pub assume_specification [f64::is_finite] (x: f64) -> (r: bool) ensures r == isfin(x);
pub assume_specification [f64::is_nan] (x: f64) -> (r: bool) ensures r == isnan(x);
pub open spec fn fmax_ok(x: f64, y: f64, r: f64) -> bool {
    if isnan(x) { r == y || isnan(r) && isnan(y) } else if isnan(y) { r == x }
    else { (r == x || r == y) && fle(x, r) && fle(y, r) }
}
pub open spec fn fmin_ok(x: f64, y: f64, r: f64) -> bool {
    if isnan(x) { r == y || isnan(r) && isnan(y) } else if isnan(y) { r == x }
    else { (r == x || r == y) && fle(r, x) && fle(r, y) }
}
pub assume_specification [f64::max] (x: f64, y: f64) -> (r: f64) ensures fmax_ok(x, y, r);
pub assume_specification [f64::min] (x: f64, y: f64) -> (r: f64) ensures fmin_ok(x, y, r);
pub assume_specification [f64::clamp] (x: f64, a: f64, b: f64) -> (r: f64)
    requires fle(a, b)
    ensures isnan(x) ==> isnan(r), !isnan(x) ==> (r == x || r == a || r == b) && fle(a, r) && fle(r, b) && (fle(a, x) && fle(x, b) ==> r == x);

// ---------------------------------------------------------------- strings
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn ax_string_ext(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
pub broadcast axiom fn ax_string_eq_str(a: &String, b: &str) ensures #[trigger] a.eq_spec(b) == (a@ == b@);
pub broadcast axiom fn ax_ref_string_eq_str(a: &String, b: &str) ensures #[trigger] <&String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
pub axiom fn ax_string_obeys()
    ensures <String as PartialEqSpec<String>>::obeys_eq_spec(), <String as PartialEqSpec<str>>::obeys_eq_spec(), <&String as PartialEqSpec<&str>>::obeys_eq_spec();

/// copying a shared reference
pub broadcast axiom fn ax_cloned_ref<T>(a: &T, b: &T) ensures #[trigger] cloned::<&T>(a, b) ==> a == b;
pub broadcast axiom fn ax_cloned_tup<A: Clone, B: Clone>(a: (A, B), b: (A, B)) ensures #[trigger] cloned::<(A, B)>(a, b) ==> cloned::<A>(a.0, b.0) && cloned::<B>(a.1, b.1);
/// `clone` on tuples
pub trait VxClone: Sized + Clone { fn vx_clone(&self) -> (r: Self) ensures cloned(*self, r); }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub broadcast axiom fn ax_cloned_opt_ref<T>(a: Option<&T>, b: Option<&T>) ensures #[trigger] cloned::<Option<&T>>(a, b) ==> a == b;
pub broadcast group vx_group { ax_btree, ax_finite, ax_cloned_ref, ax_cloned_tup, ax_cloned_opt_ref,
    ax_f64_partial_cmp, ax_f64_eq, ax_f64_bits_inj, lemma_mag_of,
    ax_string_eq, ax_string_eq_str, ax_ref_string_eq_str, ax_str_ext, ax_string_ext,
    axiom_height, ax_map_len, ax_dec, ax_undec_dec, ax_jmap_height, ax_string_height,
    ax_mul_req, ax_div_req, ax_add_req, ax_sub_req, ax_mul_one, ax_one_mul, ax_mul_sign,
}
pub proof fn vx_ambient()
    ensures <f64 as PartialOrdSpec>::obeys_partial_cmp_spec(), <f64 as PartialEqSpec>::obeys_eq_spec(),
        <String as PartialEqSpec<String>>::obeys_eq_spec(), <String as PartialEqSpec<str>>::obeys_eq_spec(), <&String as PartialEqSpec<&str>>::obeys_eq_spec(),
        <f64 as MulSpec>::obeys_mul_spec(), <f64 as DivSpec>::obeys_div_spec(), <f64 as AddSpec>::obeys_add_spec(), <f64 as SubSpec>::obeys_sub_spec(),
{ ax_f64_obeys(); ax_string_obeys(); ax_f64_ops(); }
pub axiom fn ax_f64_ops()
    ensures <f64 as MulSpec>::obeys_mul_spec(), <f64 as DivSpec>::obeys_div_spec(), <f64 as AddSpec>::obeys_add_spec(), <f64 as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn ax_string_height(s: String) ensures #[trigger] s@.len() >= 0;

/// decimal digits of a number (`usize::to_string`), and the partial inverse (`str::parse::<usize>`)
pub uninterp spec fn dec(k: usize) -> Seq<char>;
pub uninterp spec fn undec(s: Seq<char>) -> Option<usize>;
pub broadcast axiom fn ax_dec(a: usize, b: usize) ensures #![trigger dec(a), dec(b)] dec(a) == dec(b) ==> a == b;
pub broadcast axiom fn ax_undec_dec(a: usize) ensures #[trigger] undec(dec(a)) == Some(a);

pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
/// what `ToString` renders; only used for map keys
pub trait VxToString { spec fn vx_str(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_str(); }
impl VxToString for usize { open spec fn vx_str(&self) -> Seq<char> { dec(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn vx_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for str { open spec fn vx_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> VxToString for &'a str { open spec fn vx_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> VxToString for &'a String { open spec fn vx_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> VxToString for &'a usize { open spec fn vx_str(&self) -> Seq<char> { dec(**self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn dec64(k: u64) -> Seq<char>;
impl VxToString for u64 { open spec fn vx_str(&self) -> Seq<char> { dec64(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// `to_owned` on strings, and `clone` through references
pub trait VxToOwned { type Out; spec fn vx_owned(&self, r: Self::Out) -> bool; fn vx_to_owned(&self) -> (r: Self::Out) ensures self.vx_owned(r); }
impl VxToOwned for str { type Out = String; open spec fn vx_owned(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl VxToOwned for String { type Out = String; open spec fn vx_owned(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
/// `str::parse::<usize>`
pub assume_specification<T, A> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
    where A: std::alloc::Allocator, T: core::marker::MetaSized + ?Sized
    ensures r == &**b;
pub trait VxContains<T> { spec fn vx_has(&self, x: T) -> bool; fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.vx_has(*x); }
impl VxContains<String> for [String] { open spec fn vx_has(&self, x: String) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ } #[verifier::external_body] fn vx_contains(&self, x: &String) -> (r: bool) { unimplemented!() } }
impl VxContains<String> for Vec<String> { open spec fn vx_has(&self, x: String) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ } #[verifier::external_body] fn vx_contains(&self, x: &String) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub struct ParseIntError;
#[verifier::external_body]
pub fn vx_parse_usize(s: &str) -> (r: Result<usize, ParseIntError>)
    ensures match r { Ok(k) => undec(s@) == Some(k), Err(_) => undec(s@) is None } { unimplemented!() }
pub trait VxLen { spec fn vx_len_is(&self, n: usize) -> bool; }

/// reachability probes (check.py, vacuity run)
pub uninterp spec fn vx_probe(k: int) -> bool;
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_lit(s: String, l: &str) -> (r: String) ensures r@ == s@ + l@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_arg<T: Shown + ?Sized>(s: String, x: &T) -> (r: String) ensures r@ == s@ + x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_concat<T: Copy>(a: &[T], b: &[T]) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }
pub trait VxDeref { type T: ?Sized; spec fn vx_target(&self) -> Self::T where Self::T: Sized; }
#[verifier::external_body]
pub fn vx_deref<T>(b: &Box<T>) -> (r: &T) ensures *r == **b { unimplemented!() }
pub trait VxBox<T> { fn vx_as_ref(&self) -> &T; fn vx_deref(&self) -> &T; }

// ---------------------------------------------------------------- hash maps
/// rustc_hash::FxHashMap: its contents as a mathematical map; iteration order is left open
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V: Clone> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub broadcast axiom fn axiom_height<K: View, V>(m: HashMap<K, V>, k: K::V)
    requires m@.dom().contains(k)
    ensures #[trigger] (decreases_to!(m => m@[k]));
/// a map in memory has fewer entries than there are addresses
pub broadcast axiom fn ax_map_len<K: View, V>(m: HashMap<K, V>)
    ensures #[trigger] m@.dom().len() <= usize::MAX;
pub trait HKey<K: View> { spec fn hk(&self) -> K::V; }
impl HKey<String> for String { open spec fn hk(&self) -> Seq<char> { self@ } }
impl HKey<String> for str { open spec fn hk(&self) -> Seq<char> { self@ } }
impl<'a> HKey<String> for &'a String { open spec fn hk(&self) -> Seq<char> { self@ } }
impl HKey<usize> for usize { open spec fn hk(&self) -> usize { *self } }

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
impl<'a, K: View, V: VxDefault> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures old(self.m)@.dom().contains(self.k@) ==> *r == old(self.m)@[self.k@],
            !old(self.m)@.dom().contains(self.k@) ==> V::vx_is_default(*r),
            final(self.m)@ == old(self.m)@.insert(self.k@, *final(r)),
    { unimplemented!() }
}
impl<'a, K: View, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures old(self.m)@.dom().contains(self.k@) ==> *r == old(self.m)@[self.k@],
            !old(self.m)@.dom().contains(self.k@) ==> *r == v,
            final(self.m)@ == old(self.m)@.insert(self.k@, *final(r)),
    { unimplemented!() }
}
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get<'a, Q: HKey<K> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.dom().contains(k.hk()) && *v == self@[k.hk()], None => !self@.dom().contains(k.hk()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: HKey<K> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.hk()) && *v == old(self)@[k.hk()] && final(self)@ == old(self)@.insert(k.hk(), *final(v)),
            None => !old(self)@.dom().contains(k.hk()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: HKey<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures *r.m == *old(self), r.k == k, *final(r.m) == *final(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            match r { Some(x) => old(self)@.dom().contains(k@) && x == old(self)@[k@], None => !old(self)@.dom().contains(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: HKey<K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.hk()),
            match r { Some(x) => old(self)@.dom().contains(k.hk()) && x == old(self)@[k.hk()], None => !old(self)@.dom().contains(k.hk()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@.dom() =~= Set::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, h: FxBuild) -> (r: HashMap<K, V>) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: Items<(&'a K, &'a V)>) ensures r.pos == 0, enumerates(r.all, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys<'a>(&'a self) -> (r: Items<&'a K>) ensures r.pos == 0, enum_keys(r.all, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values<'a>(&'a self) -> (r: Items<&'a V>) ensures r.pos == 0, enum_values(r.all, self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct FxBuild;
pub open spec fn empty_map<K: View, V>(m: HashMap<K, V>) -> bool { m@ == Map::<K::V, V>::empty() }
impl<K: View, V> Default for HashMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() } }
impl<K: View, V> VxDefault for HashMap<K, V> { open spec fn vx_is_default(v: Self) -> bool { v@ == Map::<K::V, V>::empty() } }

pub trait VxDefault: Sized { spec fn vx_is_default(v: Self) -> bool; }
impl<T: VxDefault> VxDefault for Box<T> { open spec fn vx_is_default(v: Self) -> bool { T::vx_is_default(*v) } }
impl VxDefault for usize { open spec fn vx_is_default(v: Self) -> bool { v == 0 } }
impl VxDefault for u64 { open spec fn vx_is_default(v: Self) -> bool { v == 0 } }
impl VxDefault for bool { open spec fn vx_is_default(v: Self) -> bool { !v } }
impl<T> VxDefault for Option<T> { open spec fn vx_is_default(v: Self) -> bool { v is None } }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(v: Self) -> bool { v@.len() == 0 } }

// ---------------------------------------------------------------- iteration
/// The items an iterator will yield: all of them and the position reached.
pub struct Items<T> { pub ghost all: Seq<T>, pub ghost pos: int }
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn vx_has_next(&self) -> (r: bool) ensures r == (self.pos < self.all.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: T) requires 0 <= old(self).pos < old(self).all.len()
        ensures r == old(self).all[old(self).pos], final(self).all == old(self).all, final(self).pos == old(self).pos + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next_opt(self) -> (r: Option<T>)
        ensures match r { Some(x) => self.pos < self.all.len() && x == self.all[self.pos], None => self.pos >= self.all.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next_back(self) -> (r: Option<T>)
        ensures match r { Some(x) => self.pos < self.all.len() && x == self.all[self.all.len() - 1], None => self.pos >= self.all.len() } { unimplemented!() }
    /// index of the item yielded last
    #[verifier::external_body]
    pub fn vx_index(&self) -> (r: usize) ensures r == self.pos - 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: Items<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: Items<T>) requires self.pos == 0
        ensures r.pos == 0, r.all == self.all.subrange(0, if n <= self.all.len() { n as int } else { self.all.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: Items<T>) requires self.pos == 0
        ensures r.pos == 0, r.all == self.all.subrange(if n <= self.all.len() { n as int } else { self.all.len() as int }, self.all.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: Items<T>) requires self.pos == 0
        ensures r.pos == 0, r.all == self.all.reverse() { unimplemented!() }
}
pub uninterp spec fn kidx<K: View, V>(all: Seq<(&K, &V)>, k: K::V) -> int;
/// `all` lists the entries of `m`, each exactly once
pub open spec fn enumerates<K: View, V>(all: Seq<(&K, &V)>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> m.dom().contains(all[i].0@) && *all[i].1 == m[all[i].0@] && kidx(all, all[i].0@) == i
    &&& forall|k: K::V| #[trigger] m.dom().contains(k) ==> 0 <= kidx(all, k) < all.len() && all[kidx(all, k)].0@ == k
    &&& all.len() == m.dom().len()
}
pub uninterp spec fn kidx2<K: View>(all: Seq<&K>, k: K::V) -> int;
pub open spec fn enum_keys<K: View, V>(all: Seq<&K>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> m.dom().contains(all[i]@) && kidx2(all, all[i]@) == i
    &&& forall|k: K::V| #[trigger] m.dom().contains(k) ==> 0 <= kidx2(all, k) < all.len() && all[kidx2(all, k)]@ == k
    &&& all.len() == m.dom().len()
}
pub uninterp spec fn vkey<K: View, V>(all: Seq<&V>, i: int) -> K;
pub open spec fn enum_values<KV, V>(all: Seq<&V>, m: Map<KV, V>) -> bool {
    &&& forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> exists|k: KV| #[trigger] m.dom().contains(k) && *all[i] == m[k]
    &&& all.len() == m.dom().len()
}
/// slices, vectors and ranges
pub open spec fn seq_refs<T>(all: Seq<&T>, s: Seq<T>) -> bool {
    &&& all.len() == s.len()
    &&& forall|i: int| #![trigger all[i]] #![trigger s[i]] 0 <= i < s.len() ==> *all[i] == s[i]
}
pub trait VxSeqIter<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_iter<'a>(&'a self) -> (r: Items<&'a T>) ensures r.pos == 0, seq_refs(r.all, self.vx_seq()); }
impl<T> VxSeqIter<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Items<&'a T>) { unimplemented!() } }
impl<T> VxSeqIter<T> for Option<T> { open spec fn vx_seq(&self) -> Seq<T> { match self { Some(x) => seq![*x], None => Seq::empty() } } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Items<&'a T>) { unimplemented!() } }
impl<T> VxSeqIter<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Items<&'a T>) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_range(a: usize, b: usize) -> (r: Items<usize>)
    ensures r.pos == 0, r.all.len() == if a <= b { b - a } else { 0 }, forall|i: int| #![trigger r.all[i]] 0 <= i < r.all.len() ==> r.all[i] == a + i { unimplemented!() }
#[verifier::external_body]
pub fn vx_once<T>(x: T) -> (r: Items<T>) ensures r.pos == 0, r.all == seq![x] { unimplemented!() }
/// a type parameter that is an `IntoIterator`: it yields one sequence
pub trait VxSource: VxIntoIter { spec fn yields(self) -> Seq<Self::Item>; proof fn lemma_yields(self, all: Seq<Self::Item>) requires self.vx_items(all) ensures all == self.yields(); }
impl<T> VxSource for Vec<T> { open spec fn yields(self) -> Seq<T> { self@ } proof fn lemma_yields(self, all: Seq<T>) {} }
pub trait VxIntoIter: Sized { type Item; spec fn vx_items(self, all: Seq<Self::Item>) -> bool;
    fn vx_into_iter(self) -> (r: Items<Self::Item>) ensures r.pos == 0, self.vx_items(r.all); }
impl<'a, T> VxIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn vx_items(self, all: Seq<&'a T>) -> bool { seq_refs(all, self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<&'a T>) { unimplemented!() } }
impl<'a, T> VxIntoIter for &'a [T] { type Item = &'a T; open spec fn vx_items(self, all: Seq<&'a T>) -> bool { seq_refs(all, self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<&'a T>) { unimplemented!() } }
impl<T> VxIntoIter for Vec<T> { type Item = T; open spec fn vx_items(self, all: Seq<T>) -> bool { all == self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<T>) { unimplemented!() } }
impl<'a, K: View, V> VxIntoIter for &'a HashMap<K, V> { type Item = (&'a K, &'a V); open spec fn vx_items(self, all: Seq<(&'a K, &'a V)>) -> bool { enumerates(all, self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<(&'a K, &'a V)>) { unimplemented!() } }
impl<'a> VxIntoIter for &'a serde_json::Map<String, serde_json::Value> { type Item = (&'a String, &'a serde_json::Value); open spec fn vx_items(self, all: Seq<(&'a String, &'a serde_json::Value)>) -> bool { enumerates(all, self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<(&'a String, &'a serde_json::Value)>) { unimplemented!() } }

/// `collect()`
pub trait VxCollect<T>: Sized {
    spec fn vx_new_ok(r: Self) -> bool;
    spec fn vx_push_ok(a: Self, x: T, b: Self) -> bool;
    fn vx_cnew() -> (r: Self) ensures Self::vx_new_ok(r);
    fn vx_cpush(&mut self, x: T) ensures Self::vx_push_ok(*old(self), x, *final(self));
}
impl<T> VxCollect<T> for Vec<T> {
    open spec fn vx_new_ok(r: Self) -> bool { r@ == Seq::<T>::empty() }
    open spec fn vx_push_ok(a: Self, x: T, b: Self) -> bool { b@ == a@.push(x) }
    #[verifier::external_body] fn vx_cnew() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_cpush(&mut self, x: T) { unimplemented!() }
}
impl<K: View, V> VxCollect<(K, V)> for HashMap<K, V> {
    open spec fn vx_new_ok(r: Self) -> bool { r@ == Map::<K::V, V>::empty() }
    open spec fn vx_push_ok(a: Self, x: (K, V), b: Self) -> bool { b@ == a@.insert(x.0@, x.1) }
    #[verifier::external_body] fn vx_cnew() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_cpush(&mut self, x: (K, V)) { unimplemented!() }
}
impl<T, E, C: VxCollect<T>> VxCollect<Result<T, E>> for Result<C, E> {
    open spec fn vx_new_ok(r: Self) -> bool { r is Ok && C::vx_new_ok(r->Ok_0) }
    open spec fn vx_push_ok(a: Self, x: Result<T, E>, b: Self) -> bool {
        match (a, x) { (Err(_), _) => b == a, (Ok(_), Err(e)) => b == Result::<C, E>::Err(e), (Ok(c), Ok(y)) => b is Ok && C::vx_push_ok(c, y, b->Ok_0) }
    }
    #[verifier::external_body] fn vx_cnew() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_cpush(&mut self, x: Result<T, E>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_collect_new<T, C: VxCollect<T>>() -> (r: C) ensures C::vx_new_ok(r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_collect_push<T, C: VxCollect<T>>(c: &mut C, x: T) ensures C::vx_push_ok(*old(c), x, *final(c)) { unimplemented!() }

/// itertools `unique()`: the first occurrence of each value
pub trait VxKey { type K; spec fn vx_key(&self) -> Self::K; }
impl VxKey for bool { type K = bool; open spec fn vx_key(&self) -> bool { *self } }
impl VxKey for &usize { type K = usize; open spec fn vx_key(&self) -> usize { **self } }
impl VxKey for &str { type K = Seq<char>; open spec fn vx_key(&self) -> Seq<char> { self@ } }
impl VxKey for &String { type K = Seq<char>; open spec fn vx_key(&self) -> Seq<char> { self@ } }
impl VxKey for String { type K = Seq<char>; open spec fn vx_key(&self) -> Seq<char> { self@ } }
impl VxKey for usize { type K = usize; open spec fn vx_key(&self) -> usize { *self } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxSeen<T: VxKey> { x: std::marker::PhantomData<T> }
impl<T: VxKey> View for VxSeen<T> { type V = Set<T::K>; uninterp spec fn view(&self) -> Set<T::K>; }
#[verifier::external_body]
pub fn vx_unique_new<T: VxKey>() -> (r: VxSeen<T>) ensures r@ == Set::<T::K>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_unique_first<T: VxKey>(s: &mut VxSeen<T>, x: &T) -> (r: bool) ensures r == !old(s)@.contains(x.vx_key()), final(s)@ == old(s)@.insert(x.vx_key()) { unimplemented!() }

// ---------------------------------------------------------------- ordered maps
/// the order `Ord` defines: strictly less, and equal (which need not be identity: 0.0 and -0.0)
pub trait VxOrd: Sized { spec fn vx_lt(a: Self, b: Self) -> bool; spec fn vx_equ(a: Self, b: Self) -> bool; }
impl VxOrd for usize { open spec fn vx_lt(a: usize, b: usize) -> bool { a < b } open spec fn vx_equ(a: usize, b: usize) -> bool { a == b } }
impl VxOrd for u64 { open spec fn vx_lt(a: u64, b: u64) -> bool { a < b } open spec fn vx_equ(a: u64, b: u64) -> bool { a == b } }
impl VxOrd for i64 { open spec fn vx_lt(a: i64, b: i64) -> bool { a < b } open spec fn vx_equ(a: i64, b: i64) -> bool { a == b } }
impl VxOrd for bool { open spec fn vx_lt(a: bool, b: bool) -> bool { !a && b } open spec fn vx_equ(a: bool, b: bool) -> bool { a == b } }
/// std::collections::BTreeMap: its entries in ascending order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
pub open spec fn sorted<K: VxOrd, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> K::vx_lt(s[i].0, s[j].0) }
/// the entry of `s` with a key equal to `k`
pub open spec fn bt_has<K: VxOrd, V>(s: Seq<(K, V)>, k: K, i: int) -> bool { 0 <= i < s.len() && K::vx_equ(s[i].0, k) }
pub open spec fn bt_lacks<K: VxOrd, V>(s: Seq<(K, V)>, k: K) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !K::vx_equ(s[i].0, k) }
/// `k` belongs before index `i`
pub open spec fn bt_slot<K: VxOrd, V>(s: Seq<(K, V)>, k: K, i: int) -> bool {
    0 <= i <= s.len() && (forall|j: int| #![trigger s[j]] 0 <= j < i ==> K::vx_lt(s[j].0, k)) && (forall|j: int| #![trigger s[j]] i <= j < s.len() ==> K::vx_lt(k, s[j].0))
}
pub broadcast axiom fn ax_btree<K: VxOrd, V>(m: BTreeMap<K, V>) ensures sorted(#[trigger] m@), m@.len() <= usize::MAX;
impl<K: VxOrd, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures match r {
            Some(x) => exists|i: int| bt_has(old(self)@, k, i) && x == #[trigger] old(self)@[i].1 && final(self)@ == old(self)@.update(i, (old(self)@[i].0, v)),
            None => bt_lacks(old(self)@, k) && exists|i: int| #[trigger] bt_slot(old(self)@, k, i) && final(self)@ == old(self)@.insert(i, (k, v)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures match r {
            Some(x) => exists|i: int| bt_has(old(self)@, *k, i) && x == #[trigger] old(self)@[i].1 && final(self)@ == old(self)@.remove(i),
            None => bt_lacks(old(self)@, *k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == !bt_lacks(self@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(x) => exists|i: int| bt_has(self@, *k, i) && *x == #[trigger] self@[i].1, None => bt_lacks(self@, *k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_last(&mut self) -> (r: Option<(K, V)>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(K, V)>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.remove(0), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value<'a>(&'a self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r { Some(x) => self@.len() > 0 && *x.0 == self@[0].0 && *x.1 == self@[0].1, None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value<'a>(&'a self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r { Some(x) => self@.len() > 0 && *x.0 == self@.last().0 && *x.1 == self@.last().1, None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: Items<(&'a K, &'a V)>) ensures r.pos == 0, r.all.len() == self@.len(), forall|i: int| #![trigger r.all[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all[i].0 == self@[i].0 && *r.all[i].1 == self@[i].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys<'a>(&'a self) -> (r: Items<&'a K>) ensures r.pos == 0, r.all.len() == self@.len(), forall|i: int| #![trigger r.all[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all[i] == self@[i].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values<'a>(&'a self) -> (r: Items<&'a V>) ensures r.pos == 0, r.all.len() == self@.len(), forall|i: int| #![trigger r.all[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all[i] == self@[i].1 { unimplemented!() }
}
impl<K: VxOrd, V> Default for BTreeMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() } }
impl<K: VxOrd, V> VxDefault for BTreeMap<K, V> { open spec fn vx_is_default(v: Self) -> bool { v@ == Seq::<(K, V)>::empty() } }
impl<'a, K: VxOrd, V> VxIntoIter for &'a BTreeMap<K, V> { type Item = (&'a K, &'a V); open spec fn vx_items(self, all: Seq<(&'a K, &'a V)>) -> bool { all.len() == self@.len() && forall|i: int| #![trigger all[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *all[i].0 == self@[i].0 && *all[i].1 == self@[i].1 } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<(&'a K, &'a V)>) { unimplemented!() } }

// ---------------------------------------------------------------- tangram_finite
/// a finite float; ordered by the float comparison
#[verifier::external_body]
#[derive(Debug)]
pub struct FiniteF64 { v: f64 }
#[verifier::external_body]
#[derive(Debug)]
pub struct NotFiniteError { e: u8 }
impl View for FiniteF64 { type V = f64; uninterp spec fn view(&self) -> f64; }
impl Clone for FiniteF64 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FiniteF64 {}
pub broadcast axiom fn ax_finite(x: FiniteF64) ensures isfin(#[trigger] x@);
impl VxOrd for FiniteF64 { open spec fn vx_lt(a: FiniteF64, b: FiniteF64) -> bool { fval(a@) < fval(b@) } open spec fn vx_equ(a: FiniteF64, b: FiniteF64) -> bool { fval(a@) == fval(b@) } }
impl FiniteF64 {
    #[verifier::external_body]
    pub fn new(x: f64) -> (r: Result<FiniteF64, NotFiniteError>) ensures match r { Ok(y) => isfin(x) && y@ == x, Err(_) => !isfin(x) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: f64) ensures r == self@ { unimplemented!() }
}
impl VxDeref for FiniteF64 { type T = f64; open spec fn vx_target(&self) -> f64 { self@ } }

// ---------------------------------------------------------------- sums and conversions
pub trait VxAsF64 { spec fn vx_f64v(self) -> f64; }
impl VxAsF64 for usize { open spec fn vx_f64v(self) -> f64 { serde_json::i2f(self as int) } }
impl VxAsF64 for u64 { open spec fn vx_f64v(self) -> f64 { serde_json::i2f(self as int) } }
impl VxAsF64 for i64 { open spec fn vx_f64v(self) -> f64 { serde_json::i2f(self as int) } }
impl VxAsF64 for u32 { open spec fn vx_f64v(self) -> f64 { serde_json::i2f(self as int) } }
impl VxAsF64 for i32 { open spec fn vx_f64v(self) -> f64 { serde_json::i2f(self as int) } }
impl VxAsF64 for f64 { open spec fn vx_f64v(self) -> f64 { self } }
/// `x as f64`
#[verifier::external_body]
pub fn vx_as_f64<T: VxAsF64>(x: T) -> (r: f64) ensures r == x.vx_f64v() { unimplemented!() }
pub trait VxSum: Sized { spec fn vx_zero(z: Self) -> bool; }
impl VxSum for usize { open spec fn vx_zero(z: usize) -> bool { z == 0 } }
impl VxSum for f64 { open spec fn vx_zero(z: f64) -> bool { z == fsum(Seq::<f64>::empty()) } }
#[verifier::external_body]
pub fn vx_sum_zero<T: VxSum>() -> (r: T) ensures T::vx_zero(r) { unimplemented!() }
/// `Iterator::sum` on floats: additions from the left, starting from a zero
pub uninterp spec fn f64_sum_start() -> f64;
pub open spec fn fsum(s: Seq<f64>) -> f64
    decreases s.len()
{ if s.len() == 0 { f64_sum_start() } else { fsum(s.drop_last()).add_spec(s.last()) } }
/// arithmetic mean as the machine computes it
pub open spec fn fmean(s: Seq<f64>) -> f64 { fsum(s).div_spec(serde_json::i2f(s.len() as int)) }
/// magnitude at most 1e300, the range C15 promises to cope with
pub open spec fn fbnd(x: f64) -> bool { mag(x) <= 0x7e37_e43c_8800_759c }
pub open spec fn max_samples() -> int { 100_000_000 }
/// a sum of at most 1e8 numbers of magnitude at most 1e300 does not overflow
pub axiom fn ax_mean_fin(s: Seq<f64>) requires 0 < s.len() <= max_samples(), forall|i: int| 0 <= i < s.len() ==> fbnd(#[trigger] s[i]) ensures isfin(fmean(s));
/// the mean of one number is that number (kani/)
pub axiom fn ax_mean_one(x: f64) requires isfin(x) ensures fmean(seq![x]) == x;

// ---------------------------------------------------------------- options
/// an option or result taken by value (identity)
pub trait VxOwn: Sized { fn vx_own(self) -> (r: Self) ensures r == self; }
impl<T> VxOwn for Option<T> { #[verifier::external_body] fn vx_own(self) -> (r: Self) { unimplemented!() } }
impl<T, E> VxOwn for Result<T, E> { #[verifier::external_body] fn vx_own(self) -> (r: Self) { unimplemented!() } }

// ---------------------------------------------------------------- serde_json
pub mod serde_json {
    use vstd::prelude::*;
    use super::*;
    /// serde_json::Number (without arbitrary_precision): an i64, a u64 above i64::MAX, or a finite float
    pub enum NumV { I(i64), U(u64), F(f64) }
    #[verifier::external_body]
    pub struct Number;
    impl View for Number { type V = NumV; uninterp spec fn view(&self) -> NumV; }
    impl Clone for Number { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    pub open spec fn num_ok(n: NumV) -> bool { match n { NumV::I(_) => true, NumV::U(u) => u > i64::MAX, NumV::F(x) => isfin(x) } }
    pub uninterp spec fn i2f(i: int) -> f64;
    pub open spec fn num_f64(n: NumV) -> f64 { match n { NumV::I(i) => i2f(i as int), NumV::U(u) => i2f(u as int), NumV::F(x) => x } }
    pub type Result<T> = core::result::Result<T, Error>;
    /// the text `to_string` writes for a value
    pub uninterp spec fn json_text(v: Value) -> Seq<char>;
    /// never fails: the keys of an object are strings
    #[verifier::external_body]
    pub fn to_string(v: &Value) -> (r: core::result::Result<String, Error>) ensures r is Ok, r->Ok_0@ == json_text(*v) { unimplemented!() }
    /// Deserialize: what is read from a text (None: rejected)
    pub trait FromSlice: Sized { spec fn reads(b: Seq<u8>) -> Option<Self>; }
    #[verifier::external_body]
    pub fn from_slice<T: FromSlice>(b: &[u8]) -> (r: core::result::Result<T, Error>)
        ensures match r { Ok(x) => T::reads(b@) == Some(x), Err(_) => T::reads(b@) is None } { unimplemented!() }
    pub broadcast axiom fn ax_i2f(i: int) ensures isfin(#[trigger] i2f(i));
    impl Number {
        #[verifier::external_body]
        pub fn from_f64(x: f64) -> (r: Option<Number>) ensures match r { Some(n) => isfin(x) && n@ == NumV::F(x), None => !isfin(x) } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(num_f64(self@)), num_ok(self@), isfin(num_f64(self@)) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_i64(&self) -> (r: Option<i64>) ensures num_ok(self@), r == match self@ { NumV::I(i) => Some(i), _ => None } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_u64(&self) -> (r: Option<u64>) ensures num_ok(self@), r == match self@ { NumV::I(i) => if i >= 0 { Some(i as u64) } else { None }, NumV::U(u) => Some(u), _ => None } { unimplemented!() }
    }
    impl From<i64> for Number { #[verifier::external_body] fn from(i: i64) -> (r: Number) ensures r@ == NumV::I(i) { unimplemented!() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct Map<K, V> { k: core::marker::PhantomData<(K, V)> }
    impl<K: View, V> View for Map<K, V> { type V = vstd::map::Map<K::V, V>; uninterp spec fn view(&self) -> vstd::map::Map<K::V, V>; }
    impl Map<String, Value> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == vstd::map::Map::<Seq<char>, Value>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a, Q: HKey<String> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a Value>)
            ensures match r { Some(v) => self@.dom().contains(k.hk()) && *v == self@[k.hk()], None => !self@.dom().contains(k.hk()) } { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key<Q: HKey<String> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.hk()) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_iter<'a>(&'a self) -> (r: Items<(&'a String, &'a Value)>) ensures r.pos == 0, enumerates(r.all, self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_keys<'a>(&'a self) -> (r: Items<&'a String>) ensures r.pos == 0, enum_keys(r.all, self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_values<'a>(&'a self) -> (r: Items<&'a Value>) ensures r.pos == 0, enum_values(r.all, self@) { unimplemented!() }
    }
    pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map<String, Value>) }
    impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    #[derive(Debug)]
    pub struct Error { pub e: u8 }
    /// the document a text denotes (None: not JSON)
    pub uninterp spec fn parsed(s: Seq<char>) -> Option<Value>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: core::result::Result<Value, Error>) ensures match r { Ok(v) => parsed(s@) == Some(v), Err(_) => parsed(s@) is None } { unimplemented!() }
}
pub broadcast axiom fn ax_jmap_height(m: serde_json::Map<String, serde_json::Value>, k: Seq<char>)
    requires m@.dom().contains(k)
    ensures #[trigger] (decreases_to!(m => m@[k]));
pub use serde_json::Number;

// ---------------------------------------------------------------- machine arithmetic on floats
// The operators are functions of the operands (MulSpec & co.); only these facts about them are assumed
// (checked on all bit patterns by kani/).
pub broadcast axiom fn ax_mul_req(x: f64, y: f64) ensures #[trigger] x.mul_req(y);
pub broadcast axiom fn ax_div_req(x: f64, y: f64) ensures #[trigger] x.div_req(y);
pub broadcast axiom fn ax_add_req(x: f64, y: f64) ensures #[trigger] x.add_req(y);
pub broadcast axiom fn ax_sub_req(x: f64, y: f64) ensures #[trigger] x.sub_req(y);
pub broadcast axiom fn ax_mul_one(x: f64, y: f64) requires !isnan(x), fone(y) ensures #[trigger] x.mul_spec(y) == x;
/// the product of finite numbers is not NaN and has the sign of its factors
pub broadcast axiom fn ax_mul_sign(x: f64, y: f64) requires isfin(x), isfin(y), fval(x) >= 0, fval(y) >= 0 ensures !isnan(#[trigger] x.mul_spec(y)), fval(x.mul_spec(y)) >= 0;
/// the same facts for explicit operands (the verifier does not type float fields of structs by itself)
pub proof fn ax_mul(x: f64, y: f64)
    ensures x.mul_req(y), y.mul_req(x), !isnan(x) && fone(y) ==> x.mul_spec(y) == x, !isnan(x) && fone(y) ==> y.mul_spec(x) == x
{ ax_mul_req(x, y); ax_mul_req(y, x); if !isnan(x) && fone(y) { ax_mul_one(x, y); ax_one_mul(y, x); } }
pub broadcast axiom fn ax_one_mul(x: f64, y: f64) requires !isnan(y), fone(x) ensures #[trigger] x.mul_spec(y) == y;
pub assume_specification [f64::round] (x: f64) -> (r: f64);
/// nothing is assumed of these
pub assume_specification [f64::sqrt] (x: f64) -> (r: f64);
pub assume_specification [f64::abs] (x: f64) -> (r: f64);
pub assume_specification [f64::exp] (x: f64) -> (r: f64);
pub assume_specification [f64::exp2] (x: f64) -> (r: f64);
pub assume_specification [f64::ln] (x: f64) -> (r: f64);
pub assume_specification [f64::log10] (x: f64) -> (r: f64);
pub assume_specification [f64::log2] (x: f64) -> (r: f64);
pub assume_specification [f64::floor] (x: f64) -> (r: f64);
pub assume_specification [f64::ceil] (x: f64) -> (r: f64);
pub assume_specification [f64::trunc] (x: f64) -> (r: f64);
pub assume_specification [f64::fract] (x: f64) -> (r: f64);
pub assume_specification [f64::signum] (x: f64) -> (r: f64);
pub assume_specification [f64::recip] (x: f64) -> (r: f64);
pub assume_specification [f64::cbrt] (x: f64) -> (r: f64);
pub assume_specification [f64::sin] (x: f64) -> (r: f64);
pub assume_specification [f64::cos] (x: f64) -> (r: f64);
pub assume_specification [f64::tan] (x: f64) -> (r: f64);
pub assume_specification [f64::tanh] (x: f64) -> (r: f64);
pub assume_specification [f64::exp_m1] (x: f64) -> (r: f64);
pub assume_specification [f64::ln_1p] (x: f64) -> (r: f64);
pub assume_specification [f64::hypot] (x: f64, y: f64) -> (r: f64);
pub assume_specification [f64::atan2] (x: f64, y: f64) -> (r: f64);
pub assume_specification [f64::copysign] (x: f64, y: f64) -> (r: f64);
pub assume_specification [f64::rem_euclid] (x: f64, y: f64) -> (r: f64);
pub assume_specification [f64::log] (x: f64, y: f64) -> (r: f64);
pub assume_specification [f64::powi] (x: f64, n: i32) -> (r: f64);
pub assume_specification [f64::mul_add] (x: f64, y: f64, z: f64) -> (r: f64);
pub assume_specification [f64::is_infinite] (x: f64) -> (r: bool) ensures r == (!isfin(x) && !isnan(x));
/// a positive base to a power that is not NaN: not NaN and not negative
pub assume_specification [f64::powf] (x: f64, y: f64) -> (r: f64) ensures isfin(x) && fval(x) > 0 && !isnan(y) ==> !isnan(r) && fval(r) >= 0;
#[verifier::external_body] pub fn vx_f64_max() -> (r: f64) ensures bits(r) == 0x7fef_ffff_ffff_ffff { f64::MAX }
#[verifier::external_body] pub fn vx_f64_min() -> (r: f64) ensures bits(r) == 0xffef_ffff_ffff_ffff { f64::MIN }
#[verifier::external_body] pub fn vx_f64_min_positive() -> (r: f64) ensures bits(r) == 0x0010_0000_0000_0000 { f64::MIN_POSITIVE }
#[verifier::external_body] pub fn vx_f64_epsilon() -> (r: f64) ensures bits(r) == 0x3cb0_0000_0000_0000 { f64::EPSILON }
#[verifier::external_body] pub fn vx_f64_infinity() -> (r: f64) ensures bits(r) == 0x7ff0_0000_0000_0000 { f64::INFINITY }
#[verifier::external_body] pub fn vx_f64_neg_infinity() -> (r: f64) ensures bits(r) == 0xfff0_0000_0000_0000 { f64::NEG_INFINITY }
#[verifier::external_body] pub fn vx_f64_nan() -> (r: f64) ensures isnan(r) { f64::NAN }

// ---------------------------------------------------------------- randomness
// A generator is its state; every draw is a function of the state (so two runs from one state agree) and
// moves to the next state. Nothing else is known about a draw, except that probability 0 never and
// probability 1 always succeeds.
#[verifier::external_body] #[derive(Debug)] pub struct StdRng { s: u64 }
#[verifier::external_body] #[derive(Debug)] pub struct Bernoulli { p: u64 }
#[verifier::external_body] #[derive(Debug)] pub struct BernoulliError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct Cauchy { p: u64 }
#[verifier::external_body] #[derive(Debug)] pub struct CauchyError { e: u8 }
pub uninterp spec fn rng_seeded(seed: u64) -> StdRng;
pub uninterp spec fn bern(s: StdRng, p: f64) -> bool;
pub uninterp spec fn bern_next(s: StdRng, p: f64) -> StdRng;
pub uninterp spec fn cau(s: StdRng, m: f64, scale: f64) -> f64;
pub uninterp spec fn cau_next(s: StdRng, m: f64, scale: f64) -> StdRng;
pub uninterp spec fn pick(s: StdRng, n: int) -> int;
pub uninterp spec fn pick_next(s: StdRng, n: int) -> StdRng;
pub uninterp spec fn ipick(s: StdRng, n: int) -> int;
pub uninterp spec fn ipick_next(s: StdRng, n: int) -> StdRng;
impl StdRng {
    #[verifier::external_body]
    pub fn seed_from_u64(seed: u64) -> (r: StdRng) ensures r == rng_seeded(seed) { unimplemented!() }
    /// not a function of its arguments: the system's random source
    #[verifier::external_body]
    pub fn from_entropy() -> StdRng
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body]
    pub fn gen_bool(&mut self, p: f64) -> (r: bool) requires is_prob(p)
        ensures r == bern(*old(self), p), *final(self) == bern_next(*old(self), p), fzero(p) ==> !r, fone(p) ==> r { unimplemented!() }
}
impl Bernoulli {
    pub uninterp spec fn p(self) -> f64;
    #[verifier::external_body]
    pub fn new(p: f64) -> (r: Result<Bernoulli, BernoulliError>)
        ensures match r { Ok(b) => is_prob(p) && b.p() == p, Err(_) => !is_prob(p) } { unimplemented!() }
    #[verifier::external_body]
    pub fn sample(&self, rng: &mut StdRng) -> (r: bool)
        ensures r == bern(*old(rng), self.p()), *final(rng) == bern_next(*old(rng), self.p()),
            fzero(self.p()) ==> !r, fone(self.p()) ==> r { unimplemented!() }
}
impl Cauchy {
    pub uninterp spec fn m(self) -> f64;
    pub uninterp spec fn s(self) -> f64;
    #[verifier::external_body]
    pub fn new(m: f64, s: f64) -> (r: Result<Cauchy, CauchyError>)
        ensures match r { Ok(c) => !isnan(s) && fval(s) > 0 && c.m() == m && c.s() == s, Err(_) => isnan(s) || fval(s) <= 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn sample(&self, rng: &mut StdRng) -> (r: f64)
        ensures r == cau(*old(rng), self.m(), self.s()), *final(rng) == cau_next(*old(rng), self.m(), self.s()),
            isfin(self.m()) && isfin(self.s()) ==> !isnan(r) { unimplemented!() }
}
/// not functions of their arguments
#[verifier::external_body]
pub fn thread_rng() -> StdRng
    requires
        false, //@ C09
{ unimplemented!() }
#[verifier::external_body]
pub fn random<T>() -> T
    requires
        false, //@ C09
{ unimplemented!() }
pub mod rand { #[allow(unused_imports)] use vstd::prelude::*; pub use super::thread_rng; pub use super::random; pub mod rngs { pub use super::super::StdRng; } }
/// `SliceRandom`
pub trait VxSliceRandom<T> {
    spec fn vx_sr(&self) -> Seq<T>;
    fn choose<'a>(&'a self, rng: &mut StdRng) -> (r: Option<&'a T>)
        ensures match r { None => self.vx_sr().len() == 0, Some(x) => 0 <= pick(*old(rng), self.vx_sr().len() as int) < self.vx_sr().len() && *x == self.vx_sr()[pick(*old(rng), self.vx_sr().len() as int)] },
            *final(rng) == pick_next(*old(rng), self.vx_sr().len() as int);
}
impl<T> VxSliceRandom<T> for [T] { open spec fn vx_sr(&self) -> Seq<T> { self@ } #[verifier::external_body] fn choose<'a>(&'a self, rng: &mut StdRng) -> (r: Option<&'a T>) { unimplemented!() } }
impl<T> VxSliceRandom<T> for Vec<T> { open spec fn vx_sr(&self) -> Seq<T> { self@ } #[verifier::external_body] fn choose<'a>(&'a self, rng: &mut StdRng) -> (r: Option<&'a T>) { unimplemented!() } }
pub trait VxShuffle<T> { spec fn vx_sh(&self) -> Seq<T>; fn shuffle(&mut self, rng: &mut StdRng) ensures final(self).vx_sh().to_multiset() == old(self).vx_sh().to_multiset(); }
impl<T> VxShuffle<T> for Vec<T> { open spec fn vx_sh(&self) -> Seq<T> { self@ } #[verifier::external_body] fn shuffle(&mut self, rng: &mut StdRng) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_choose_it<T>(v: Items<T>, rng: &mut StdRng) -> (r: Option<T>)
    requires v.pos == 0
    ensures match r { None => v.all.len() == 0, Some(x) => 0 <= ipick(*old(rng), v.all.len() as int) < v.all.len() && x == v.all[ipick(*old(rng), v.all.len() as int)] },
        *final(rng) == ipick_next(*old(rng), v.all.len() as int) { unimplemented!() }
/// `IteratorRandom::choose` over the items of an iterator
#[verifier::external_body]
pub fn vx_choose<T>(v: Vec<T>, rng: &mut StdRng) -> (r: Option<T>)
    ensures match r { None => v@.len() == 0, Some(x) => 0 <= ipick(*old(rng), v@.len() as int) < v@.len() && x == v@[ipick(*old(rng), v@.len() as int)] },
        *final(rng) == ipick_next(*old(rng), v@.len() as int) { unimplemented!() }
/// num_traits::ToPrimitive
pub trait VxToPrim { spec fn vx_f64(&self) -> Option<f64>; fn to_f64(&self) -> (r: Option<f64>) ensures r == self.vx_f64(); fn to_i64(&self) -> (r: Option<i64>); }
impl VxToPrim for f64 { open spec fn vx_f64(&self) -> Option<f64> { Some(*self) } #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } #[verifier::external_body] fn to_i64(&self) -> (r: Option<i64>) { unimplemented!() } }
impl VxToPrim for i64 { open spec fn vx_f64(&self) -> Option<f64> { Some(serde_json::i2f(*self as int)) } #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } #[verifier::external_body] fn to_i64(&self) -> (r: Option<i64>) { unimplemented!() } }
impl VxToPrim for usize { open spec fn vx_f64(&self) -> Option<f64> { Some(serde_json::i2f(*self as int)) } #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } #[verifier::external_body] fn to_i64(&self) -> (r: Option<i64>) { unimplemented!() } }

// ---------------------------------------------------------------- opaque foreign types
pub mod io { #[allow(unused_imports)] use vstd::prelude::*; #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 } pub type Result<T> = core::result::Result<T, Error>;
    /// what went wrong is not modelled: any kind is possible
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, ExecutableFileBusy, ResourceBusy, StorageFull, ArgumentListTooLong, IsADirectory, NotADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, Other }
    impl Error { #[verifier::external_body] pub fn kind(&self) -> ErrorKind { unimplemented!() } #[verifier::external_body] pub fn raw_os_error(&self) -> Option<i32> { unimplemented!() } }
}
pub mod ctrlc { #[allow(unused_imports)] use vstd::prelude::*; #[verifier::external_body] pub struct Error { e: u8 } }
// ---------------------------------------------------------------- serde_yaml
pub mod serde_yaml {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[allow(unused_imports)] use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
    #[verifier::external_body] pub struct Number;
    impl View for Number { type V = serde_json::NumV; uninterp spec fn view(&self) -> serde_json::NumV; }
    /// the entries of a mapping in document order
    #[verifier::external_body] pub struct Mapping;
    impl View for Mapping { type V = Seq<(Value, Value)>; uninterp spec fn view(&self) -> Seq<(Value, Value)>; }
    #[verifier::external_body] pub struct Tag;
    pub struct TaggedValue { pub tag: Tag, pub value: Value }
    pub enum Value { Null, Bool(bool), Number(Number), String(String), Sequence(Vec<Value>), Mapping(Mapping), Tagged(Box<TaggedValue>) }
    pub broadcast axiom fn ax_ymap_height(m: Mapping, i: int)
        requires 0 <= i < m@.len()
        ensures #[trigger] (decreases_to!(m => m@[i].1));
    pub broadcast axiom fn ax_yval_height(v: Value)
        requires v is Mapping
        ensures #[trigger] (decreases_to!(v => v->Mapping_0));
    /// index of the first entry at or after `from` whose key is the string `k`, or -1
    pub open spec fn yfind(m: Seq<(Value, Value)>, k: Seq<char>, from: int) -> int
        decreases m.len() - from
    {
        if !(0 <= from < m.len()) { -1 } else if m[from].0 is String && m[from].0->String_0@ == k { from } else { yfind(m, k, from + 1) }
    }
    pub open spec fn yidx(m: Mapping, k: Seq<char>) -> int { yfind(m@, k, 0) }
    pub open spec fn yattr(m: Mapping, k: Seq<char>) -> Option<Value> { if 0 <= yidx(m, k) < m@.len() { Some(m@[yidx(m, k)].1) } else { None } }
    /// the value without its tags
    pub open spec fn untag(v: Value) -> Value decreases v { match v { Value::Tagged(t) => untag((*t).value), _ => v } }
    /// the number as a float (None: not a number), as a signed and as an unsigned 64-bit integer
    pub uninterp spec fn yf64(n: Number) -> Option<f64>;
    pub uninterp spec fn yi64(n: Number) -> Option<i64>;
    pub uninterp spec fn yu64(n: Number) -> Option<u64>;
    impl Value {
        #[verifier::external_body]
        pub fn as_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { Some(s) => untag(*self) is String && untag(*self)->String_0@ == s@, None => !(untag(*self) is String) } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_bool(&self) -> (r: Option<bool>) ensures r == match untag(*self) { Value::Bool(b) => Some(b), _ => None } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_f64(&self) -> (r: Option<f64>) ensures r == match untag(*self) { Value::Number(n) => yf64(n), _ => None } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_i64(&self) -> (r: Option<i64>) ensures r == match untag(*self) { Value::Number(n) => yi64(n), _ => None } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_u64(&self) -> (r: Option<u64>) ensures r == match untag(*self) { Value::Number(n) => yu64(n), _ => None } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_mapping<'a>(&'a self) -> (r: Option<&'a Mapping>) ensures match r { Some(s) => untag(*self) == Value::Mapping(*s), None => !(untag(*self) is Mapping) } { unimplemented!() }
        #[verifier::external_body]
        pub fn as_sequence<'a>(&'a self) -> (r: Option<&'a Vec<Value>>) ensures match r { Some(s) => untag(*self) == Value::Sequence(*s), None => !(untag(*self) is Sequence) } { unimplemented!() }
        #[verifier::external_body]
        pub fn is_string(&self) -> (r: bool) ensures r == untag(*self) is String { unimplemented!() }
    }
    impl Mapping {
        #[verifier::external_body]
        pub fn get<'a, Q: HKey<String> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a Value>)
            ensures match r { Some(v) => yattr(*self, k.hk()) == Some(*v), None => yattr(*self, k.hk()) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key<Q: HKey<String> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == yattr(*self, k.hk()) is Some { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_iter<'a>(&'a self) -> (r: Items<(&'a Value, &'a Value)>) ensures r.pos == 0, ylist(r.all, self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_keys<'a>(&'a self) -> (r: Items<&'a Value>) ensures r.pos == 0, r.all.len() == self@.len(), forall|i: int| #![trigger r.all[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all[i] == self@[i].0 { unimplemented!() }
    }
    pub open spec fn ylist(all: Seq<(&Value, &Value)>, s: Seq<(Value, Value)>) -> bool {
        all.len() == s.len() && forall|i: int| #![trigger all[i]] #![trigger s[i]] 0 <= i < s.len() ==> *all[i].0 == s[i].0 && *all[i].1 == s[i].1
    }
    impl<'a> VxIntoIter for &'a Mapping { type Item = (&'a Value, &'a Value); open spec fn vx_items(self, all: Seq<(&'a Value, &'a Value)>) -> bool { ylist(all, self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Items<(&'a Value, &'a Value)>) { unimplemented!() } }
    /// the document a text denotes (None: not YAML)
    pub uninterp spec fn yparsed(s: Seq<char>) -> Option<Value>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Value, Error>) ensures match r { Ok(v) => yparsed(s@) == Some(v), Err(_) => yparsed(s@) is None } { unimplemented!() }
    /// what the parser produced can be written
    #[verifier::external_body]
    pub fn to_string(v: &Value) -> (r: Result<String, Error>) ensures r is Ok { unimplemented!() }
}
pub use serde_yaml::ylist;
// ---------------------------------------------------------------- string methods
/// a string under a change of case / trimmed: nothing else is known about it
pub uninterp spec fn vx_case(how: Seq<char>, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait VxStr {
    spec fn vx_chars(&self) -> Seq<char>;
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self.vx_chars());
    fn vx_ends_with(&self, p: &str) -> (r: bool) ensures r == p@.is_suffix_of(self.vx_chars());
    fn vx_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures match r { Some(s) => p@.is_prefix_of(self.vx_chars()) && s@ == self.vx_chars().skip(p@.len() as int), None => !p@.is_prefix_of(self.vx_chars()) };
    fn vx_replace(&self, a: char, b: &str) -> (r: String);
    fn vx_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) ensures self.vx_chars() == p@ ==> r;
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == vx_case("to_lowercase"@, self.vx_chars());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == vx_case("to_uppercase"@, self.vx_chars());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == vx_case("to_ascii_lowercase"@, self.vx_chars());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == vx_case("to_ascii_uppercase"@, self.vx_chars());
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == vx_case("trim"@, self.vx_chars());
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == vx_case("trim_start"@, self.vx_chars());
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == vx_case("trim_end"@, self.vx_chars());
    fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.vx_chars());
}
impl VxStr for str { open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&self, a: char, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
}
impl VxStr for String { open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&self, a: char, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
}
/// equality of strings
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_utf8_lossy(b: &[u8]) -> (r: String) { unimplemented!() }
pub trait VxAsDeref { fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) ensures self.vx_same(r); spec fn vx_same(&self, r: Option<&str>) -> bool; }
impl VxAsDeref for Option<String> { open spec fn vx_same(&self, r: Option<&str>) -> bool { match (*self, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } }
    #[verifier::external_body] fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) { unimplemented!() } }
/// `k` is the key of one of the elements
pub open spec fn kin<T: VxKey>(s: Seq<T>, k: T::K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_key() == k }
impl VxKey for &&str { type K = Seq<char>; open spec fn vx_key(&self) -> Seq<char> { self@ } }
impl<T: VxKey> Items<T> {
    /// itertools: `contains`
    #[verifier::external_body]
    pub fn vx_all_equal(self) -> (r: bool) requires self.pos == 0 ensures r == forall|i: int, j: int| 0 <= i < self.all.len() && 0 <= j < self.all.len() ==> (#[trigger] self.all[i]).vx_key() == (#[trigger] self.all[j]).vx_key() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains<Q: VxKey<K = T::K>>(self, x: Q) -> (r: bool) requires self.pos == 0 ensures r == kin(self.all, x.vx_key()) { unimplemented!() }
}
/// rustc_hash::FxHashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: std::marker::PhantomData<T> }
impl<'a> View for HashSet<&'a str> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl<'a> HashSet<&'a str> {
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [&'a str; N]) -> (r: Self) ensures forall|k: Seq<char>| #[trigger] r@.contains(k) == kin(a@, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
}
/// itertools `all_equal`
#[verifier::external_body]
pub fn vx_all_equal<T: VxKey>(v: Vec<T>) -> (r: bool) ensures r == forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() ==> (#[trigger] v@[i]).vx_key() == (#[trigger] v@[j]).vx_key() { unimplemented!() }
#[verifier::external_body] pub struct Pid { p: i32 }
impl View for Pid { type V = int; uninterp spec fn view(&self) -> int; }
impl Clone for Pid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Pid {}
#[verifier::external_body] #[derive(Debug)] pub struct PathBuf { p: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub type Path = PathBuf;
pub type OsStr = OsString;
pub uninterp spec fn joined(d: Seq<char>, n: Seq<char>) -> Seq<char>;
/// a relative path
pub open spec fn plain(n: Seq<char>) -> bool { n.len() > 0 && 'a' <= n[0] <= 'z' }
pub broadcast axiom fn ax_joined(d: Seq<char>, a: Seq<char>, b: Seq<char>)
    ensures #![trigger joined(d, a), joined(d, b)] plain(a) && plain(b) && joined(d, a) == joined(d, b) ==> a == b;
impl PathBuf {
    #[verifier::external_body] pub fn join<S: OsText>(&self, n: S) -> (r: PathBuf) ensures r@ == joined(self@, n.text()) { unimplemented!() }
    #[verifier::external_body] pub fn display(&self) -> PathDisplay { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &PathBuf) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct PathDisplay { p: u8 }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxToOwned for PathBuf { type Out = PathBuf; open spec fn vx_owned(&self, r: PathBuf) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: PathBuf) { unimplemented!() } }
/// AsRef<OsStr> / AsRef<Path> / AsRef<[u8]>
pub trait OsText { spec fn text(&self) -> Seq<char>; }
impl OsText for OsString { open spec fn text(&self) -> Seq<char> { self@ } }
impl OsText for PathBuf { open spec fn text(&self) -> Seq<char> { self@ } }
impl OsText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl OsText for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a, T: OsText + ?Sized> OsText for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
pub trait ByteText { spec fn bytes(&self) -> Seq<u8>; }
impl ByteText for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ByteText for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ByteText for String { open spec fn bytes(&self) -> Seq<u8> { utf8(self@) } }
impl ByteText for str { open spec fn bytes(&self) -> Seq<u8> { utf8(self@) } }
impl<'a, T: ByteText + ?Sized> ByteText for &'a T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
/// Display
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for serde_json::Value { open spec fn shown(&self) -> Seq<char> { serde_json::json_text(*self) } }
/// how a floating-point number is printed
pub uninterp spec fn fdec(x: f64) -> Seq<char>;
impl Shown for f64 { open spec fn shown(&self) -> Seq<char> { fdec(*self) } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { dec(*self) } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { dec64(*self) } }
impl VxToString for f64 { open spec fn vx_str(&self) -> Seq<char> { fdec(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: Shown + ?Sized> Shown for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VxToString for serde_json::Value { open spec fn vx_str(&self) -> Seq<char> { serde_json::json_text(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] #[derive(Debug)] pub struct FmtError { e: u8 }
#[verifier::external_body]
pub fn vx_write_ok() -> (r: Result<(), FmtError>) ensures r is Ok { unimplemented!() }
/// a text handed to or taken from the operating system
#[verifier::external_body] #[derive(Debug)] pub struct OsString { p: u8 }
impl OsString { #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsString) ensures r == self { unimplemented!() } }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl From<String> for OsString { #[verifier::external_body] fn from(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() } }
impl Clone for OsString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxToOwned for OsString { type Out = OsString; open spec fn vx_owned(&self, r: OsString) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: OsString) { unimplemented!() } }
#[verifier::external_body] pub struct ExitStatus { p: u8 }
impl ExitStatus { pub uninterp spec fn succeeded(&self) -> bool; #[verifier::external_body] pub fn success(&self) -> (r: bool) ensures r == self.succeeded() { unimplemented!() } }
pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }

} // mod ext
} // verus!
