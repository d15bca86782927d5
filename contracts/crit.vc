%% The termination criteria: what they say, and that they are read as such
%mod termination src/termination.rs
%use crate::world::Duration
%types TerminationCriterion CompiledTerminationCriteria
%use self::TerminationCriterion::*
%raw
pub type Crit = TerminationCriterion;
pub open spec fn ns(s: Seq<Crit>) -> Seq<usize> decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Crit::NumObjFuncEval(n) => ns(s.drop_last()).push(n), _ => ns(s.drop_last()) } } }
pub open spec fn targets(s: Seq<Crit>) -> Seq<f64> decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Crit::TargetObjFuncVal(n) => targets(s.drop_last()).push(n), _ => targets(s.drop_last()) } } }
pub open spec fn limits(s: Seq<Crit>) -> Seq<Duration> decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Crit::TerminateAfter(n) => limits(s.drop_last()).push(n), _ => limits(s.drop_last()) } } }
pub open spec fn signals(s: Seq<Crit>) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { signals(s.drop_last()) + if s.last() is Signal { 1nat } else { 0 } } }
pub open spec fn one<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => seq![] } }
/// the criteria say exactly this
pub open spec fn says(s: Seq<Crit>, n: Option<usize>, t: Option<f64>, d: Option<Duration>, sig: bool) -> bool {
    ns(s) == one(n) && targets(s) == one(t) && limits(s) == one(d) && signals(s) == if sig { 1nat } else { 0 }
}
pub broadcast proof fn lemma_crit_push(s: Seq<Crit>, x: Crit)
    ensures
        ns(#[trigger] s.push(x)) == match x { Crit::NumObjFuncEval(n) => ns(s).push(n), _ => ns(s) },
        targets(s.push(x)) == match x { Crit::TargetObjFuncVal(n) => targets(s).push(n), _ => targets(s) },
        limits(s.push(x)) == match x { Crit::TerminateAfter(n) => limits(s).push(n), _ => limits(s) },
        signals(s.push(x)) == signals(s) + if x is Signal { 1nat } else { 0 },
{ assert(s.push(x).drop_last() =~= s); }

/// nothing is said twice, and the target is a number
pub open spec fn clear(s: Seq<Crit>) -> bool {
    ns(s).len() <= 1 && targets(s).len() <= 1 && limits(s).len() <= 1 && signals(s) <= 1 && (forall|i: int| 0 <= i < targets(s).len() ==> isfin(#[trigger] targets(s)[i]))
}
proof fn lemma_more(a: Seq<Crit>, b: Seq<Crit>)
    requires b.len() >= a.len(), b.subrange(0, a.len() as int) == a
    ensures ns(b).len() >= ns(a).len() && targets(b).len() >= targets(a).len() && limits(b).len() >= limits(a).len() && signals(b) >= signals(a), clear(b) ==> clear(a)
    decreases b.len() - a.len()
{
    if b.len() == a.len() { assert(a =~= b); } else {
        let c = b.drop_last();
        assert(c.subrange(0, a.len() as int) =~= a);
        lemma_more(a, c);
        assert(b =~= c.push(b.last())); assert(c.subrange(0, a.len() as int) == a);
        lemma_crit_push(c, b.last());
        if clear(b) {
            assert forall|i: int| 0 <= i < targets(c).len() implies isfin(#[trigger] targets(c)[i]) by { assert(targets(b)[i] == targets(c)[i]); }
        }
    }
}
%fn compile(a_c)
    ensures
        r is Ok ==> ns(a_c.yields()) == one(r->Ok_0.max_num_obj_func_eval), //@ C03 C05 C16
        r is Ok ==> targets(a_c.yields()) == one(r->Ok_0.target_obj_func_val), //@ C04 C16
        r is Ok ==> limits(a_c.yields()) == one(r->Ok_0.terminate_after), //@ C04 C16
        r is Ok ==> signals(a_c.yields()) == if r->Ok_0.terminate_on_signal { 1nat } else { 0 }, //@ C04 C16
        r is Ok <==> clear(a_c.yields()), //@ C16
%at beforeloop 0
    proof { a_c.lemma_yields($all); }
%loop 0
    ns($all.take($pos)) == one(max_num_obj_func_eval), //@ C03 C05 C16
    targets($all.take($pos)) == one(target_obj_func_val), //@ C04 C16
    limits($all.take($pos)) == one(terminate_after), //@ C04 C16
    signals($all.take($pos)) == if terminate_on_signal { 1nat } else { 0 }, //@ C04 C16
    clear($all.take($pos)), //@ C16
    $all == a_c.yields(),
%at loopstart 0
    proof {
        let (s, x) = ($all.take($pos), $all[$pos as int]);
        assert($all.take($pos + 1) =~= s.push(x));
        lemma_crit_push(s, x);
        lemma_more(s.push(x), $all);
        if targets(s).len() == 0 && x is TargetObjFuncVal { assert(targets(s.push(x))[0] == x->TargetObjFuncVal_0); }
    }
%at afterloop 0
    proof { assert($all.take($all.len() as int) =~= $all); }

