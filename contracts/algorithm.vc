%% The population: C02, C08, and the run-level halves of C01, C14, C15
%mod meta src/meta.rs
%types MetaParamsWrapper MetaParamsSource
%raw
pub open spec fn mw_ok(w: MetaParamsWrapper) -> bool { cp_ok(w.crossover_params) && mp_ok(w.mutation_params) }

%mod smp
%raw
pub open spec fn smps(v: Seq<FiniteF64>) -> Seq<f64> { v.map_values(|x: FiniteF64| x@) }
pub broadcast proof fn lemma_smp_push(v: Seq<FiniteF64>, x: FiniteF64) ensures #[trigger] smps(v.push(x)) == smps(v).push(x@) { assert(smps(v.push(x)) =~= smps(v).push(x@)); }

%mod crossover src/crossover.rs
%fn Crossover::new

%mod algorithm src/algorithm.rs
%types AlgoContext StaticParams OrderingKey IndState IndContext
%use broadcast crate::js::lemma_conf_finv, crate::smp::lemma_smp_push
%use crate::smp::smps
%use crate::sp::*
%use crate::path::pwf
%use crate::meta::{mp_ok, cp_ok, mw_ok}
%use crate::rc::{all_conf, vset}
%use crate::crossover::vals
%raw
pub type Pop = Seq<(OrderingKey, IndContext)>;
/// the values of a sample
pub open spec fn smp(v: Vec<FiniteF64>) -> Seq<f64> { smps(v@) }
pub open spec fn smp_ok(v: Vec<FiniteF64>) -> bool { forall|i: int| 0 <= i < v@.len() ==> fbnd(#[trigger] v@[i]@) }
/// the summary value an individual is ranked by
pub open spec fn rank_val(s: IndState) -> f64 {
    match s { IndState::PendingEval(v) => fmean(smp(v)), IndState::Ready(v) => fmean(smp(v)), IndState::Final(x) => x@ }
}
pub open spec fn st_ok(s: IndState, n: int) -> bool {
    match s { IndState::PendingEval(v) => v@.len() < n && smp_ok(v), IndState::Ready(v) => 0 < v@.len() < n && smp_ok(v), IndState::Final(x) => true }
}
pub open spec fn ind_ok(spec: crate::spec::Spec, n: int, next: int, i: IndContext) -> bool {
    &&& conf(spec.0, i.value.0)
    &&& i.meta_params_used is Some ==> mw_ok(i.meta_params_used->Some_0)
    &&& st_ok(i.state, n)
    &&& i.id < next
}
pub open spec fn statics_ok(s: StaticParams) -> bool {
    is_prob(s.meta_params_prob_exploratory) && is_prob(s.meta_params_select_pressure) && is_prob(s.meta_params_prob_mutation) && is_prob(s.prob_reeval) && s.max_pop_size >= 1
}
pub open spec fn pop_ok(c: AlgoContext, p: Pop) -> bool {
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> ind_ok(c.spec, c.individual_sample_size as int, c.next_id as int, p[i].1)
            && !(p[i].1.state is PendingEval) && p[i].0.id == p[i].1.id && p[i].0.obj_func_val@ == rank_val(p[i].1.state)
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> p[i].1.id != p[j].1.id
}
pub open spec fn ctx_ok(c: AlgoContext) -> bool {
    &&& wf(c.spec.0) && conf(c.spec.0, c.initial_value.0)
    &&& pwf(c.path_ctx.0)
    &&& statics_ok(c.static_params)
    &&& 1 <= c.individual_sample_size <= max_samples()
    &&& c.meta_params_override is Some ==> cp_ok(c.meta_params_override->Some_0.0) && mp_ok(c.meta_params_override->Some_0.1)
    &&& pop_ok(c, c.individuals@)
    &&& c.individuals@.len() <= c.static_params.max_pop_size
}
/// everything but the population, the random state and the path nodes is as before
pub open spec fn same_cfg(a: AlgoContext, b: AlgoContext) -> bool {
    a.spec == b.spec && a.individual_sample_size == b.individual_sample_size && a.initial_value == b.initial_value
        && a.static_params == b.static_params && a.meta_params_override == b.meta_params_override
}
/// a is b up to its population / random state / path nodes and crossover scratch / id counter
pub open spec fn only_pop(a: AlgoContext, b: AlgoContext) -> bool { b == (AlgoContext { individuals: b.individuals, ..a }) }
pub open spec fn only_rng(a: AlgoContext, b: AlgoContext) -> bool { b == (AlgoContext { rng: b.rng, ..a }) }
pub open spec fn only_gen(a: AlgoContext, b: AlgoContext) -> bool { b == (AlgoContext { rng: b.rng, path_ctx: b.path_ctx, crossover: b.crossover, ..a }) }
pub open spec fn only_id(a: AlgoContext, b: AlgoContext) -> bool { b == (AlgoContext { next_id: b.next_id, ..a }) }
pub open spec fn pend(s: IndState) -> Vec<FiniteF64> { s->PendingEval_0 }
/// the state after one more accepted value
pub open spec fn stepped(s: IndState, x: FiniteF64, n: int, t: IndState) -> bool {
    let v = smp(pend(s)).push(x@);
    if v.len() == n { t is Final && t->Final_0@ == fmean(v) } else { t is Ready && smp(t->Ready_0) == v }
}
/// the individual handed out next
pub open spec fn is_reeval(a: AlgoContext, b: AlgoContext, r: IndContext, i: int) -> bool {
    0 <= i < a.individuals@.len() && b.individuals@ == a.individuals@.remove(i) && r.id == a.individuals@[i].1.id
        && r.value == a.individuals@[i].1.value && r.meta_params_used == a.individuals@[i].1.meta_params_used
        && a.individuals@[i].1.state is Ready && r.state == IndState::PendingEval(a.individuals@[i].1.state->Ready_0)
        && b.next_id == a.next_id && b.initial_value_used == a.initial_value_used
}
pub open spec fn is_fresh(a: AlgoContext, b: AlgoContext, r: IndContext) -> bool {
    b.individuals@ == a.individuals@ && r.id == a.next_id && b.next_id == a.next_id + 1 && pend(r.state)@.len() == 0
        && b.initial_value_used && (!a.initial_value_used ==> r.value == a.initial_value && r.meta_params_used is None)
}
/// the population after value `x` of individual `ind` was accepted: the individual is ranked in, and what exceeds the cap falls off the end
pub open spec fn ranked_in(p: Pop, ind: IndContext, x: FiniteF64, n: int, max: int, q: Pop) -> bool {
    exists|i: int, k: OrderingKey, c: IndContext| #![trigger p.insert(i, (k, c))] bt_slot(p, k, i)
        && k.id == ind.id && c.id == ind.id && c.value == ind.value && c.meta_params_used == ind.meta_params_used
        && k.obj_func_val@ == rank_val(c.state) && stepped(ind.state, x, n, c.state)
        && q == p.insert(i, (k, c)).take(if p.len() + 1 <= max { (p.len() + 1) as int } else { max })
}
/// what `next_individual` hands out
pub open spec fn is_next(a: AlgoContext, b: AlgoContext, r: IndContext) -> bool {
    same_cfg(a, b) && r.state is PendingEval && ind_ok(b.spec, b.individual_sample_size as int, b.next_id as int, r)
        && (is_fresh(a, b, r) || exists|i: int| #![trigger a.individuals@[i]] is_reeval(a, b, r, i))
}
/// what `process_individual_eval` does to the population
pub open spec fn processed(a: AlgoContext, b: AlgoContext, ind: IndContext, v: Option<FiniteF64>) -> bool {
    only_pop(a, b) && match v {
        None => b.individuals@ == a.individuals@,
        Some(x) => ranked_in(a.individuals@, ind, x, a.individual_sample_size as int, a.static_params.max_pop_size as int, b.individuals@),
    }
}
/// the best seen: the first of the population with all its evaluations made
pub open spec fn is_best(c: AlgoContext, x: FiniteF64, v: Value) -> bool {
    exists|i: int| #![trigger c.individuals@[i]] 0 <= i < c.individuals@.len() && c.individuals@[i].1.state == IndState::Final(x) && v == c.individuals@[i].1.value
        && forall|j: int| #![trigger c.individuals@[j]] 0 <= j < i ==> !(c.individuals@[j].1.state is Final)
}
pub open spec fn no_final(c: AlgoContext) -> bool { forall|j: int| #![trigger c.individuals@[j]] 0 <= j < c.individuals@.len() ==> !(c.individuals@[j].1.state is Final) }
pub proof fn lemma_pop_remove(c: AlgoContext, p: Pop, i: int)
    requires pop_ok(c, p), 0 <= i < p.len()
    ensures pop_ok(c, p.remove(i))
{
    assert forall|j: int| #![trigger p.remove(i)[j]] 0 <= j < p.remove(i).len() implies p.remove(i)[j] == p[if j < i { j } else { j + 1 }] by {}
}
pub proof fn lemma_pop_insert(c: AlgoContext, p: Pop, i: int, e: (OrderingKey, IndContext))
    requires pop_ok(c, p), 0 <= i <= p.len(), forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> p[j].1.id != e.1.id,
        ind_ok(c.spec, c.individual_sample_size as int, c.next_id as int, e.1), !(e.1.state is PendingEval), e.0.id == e.1.id, e.0.obj_func_val@ == rank_val(e.1.state)
    ensures pop_ok(c, p.insert(i, e))
{
    let q = p.insert(i, e);
    assert forall|j: int| #![trigger q[j]] 0 <= j < q.len() implies q[j] == (if j < i { p[j] } else if j == i { e } else { p[j - 1] }) by {}
}
%fn summary_obj_func_val(a_v)
    requires 0 < a_v@.len() <= max_samples(), forall|i: int| 0 <= i < a_v@.len() ==> fbnd(#[trigger] a_v@[i]@),
    ensures r@ == fmean(smps(a_v@)),
%loop 0
    seq_refs($all, a_v@), $out == fsum(smps(a_v@).take($pos)),
%at loopstart 0
    proof { let s = smps(a_v@); assert(s.take($pos as int + 1).drop_last() =~= s.take($pos as int)); }
%at afterloop 0
    proof { let s = smps(a_v@); assert(s.take($pos as int) =~= s); ax_mean_fin(s); }
%fn wrap(a_u, a_src)
    ensures r.crossover_params == a_u.0, r.mutation_params == a_u.1,
%fn OrderingKey::new(a_id, a_v)
    ensures r.id == a_id, r.obj_func_val == a_v,
%fn IndContext::new(a_id, a_v, a_mp)
    ensures r.id == a_id, r.value == a_v, r.meta_params_used == a_mp, r.state is PendingEval, pend(r.state)@.len() == 0,
%fn AlgoContext::new(a_spec, a_n, a_mp, a_init)
    requires wf(a_spec.0), 1 <= a_n <= max_samples(), a_mp is Some ==> cp_ok(a_mp->Some_0.0) && mp_ok(a_mp->Some_0.1),
        a_init is Some ==> conf(a_spec.0, a_init->Some_0.0),
    ensures ctx_ok(r), r.individuals@.len() == 0, r.next_id == 0, !r.initial_value_used, r.spec == a_spec, r.individual_sample_size == a_n,
        a_init is Some ==> r.initial_value == a_init->Some_0, a_init is None ==> is_init(a_spec.0, r.initial_value.0),
        exists|s: u64| r.rng == #[trigger] rng_seeded(s), //@ C09
%fn AlgoContext::new_impl(a_spec, a_n, a_mp, a_init, a_st)
    requires wf(a_spec.0), 1 <= a_n <= max_samples(), a_mp is Some ==> cp_ok(a_mp->Some_0.0) && mp_ok(a_mp->Some_0.1),
        a_init is Some ==> conf(a_spec.0, a_init->Some_0.0), statics_ok(a_st),
    ensures ctx_ok(r), r.individuals@.len() == 0, r.next_id == 0, !r.initial_value_used, r.spec == a_spec, r.individual_sample_size == a_n,
        a_init is Some ==> r.initial_value == a_init->Some_0, a_init is None ==> is_init(a_spec.0, r.initial_value.0),
        exists|s: u64| r.rng == #[trigger] rng_seeded(s), //@ C09
%fn AlgoContext::make_id
    requires old(self).next_id < usize::MAX,
    ensures r == old(self).next_id, only_id(*old(self), *final(self)), final(self).next_id == old(self).next_id + 1,
%fn AlgoContext::extract_best_ready
    requires ctx_ok(*old(self)),
    ensures ctx_ok(*final(self)), same_cfg(*old(self), *final(self)), final(self).next_id == old(self).next_id, final(self).initial_value_used == old(self).initial_value_used,
        match r {
            Some(x) => exists|i: int| 0 <= i < old(self).individuals@.len() && x == (#[trigger] old(self).individuals@[i]).1 && x.state is Ready && final(self).individuals@ == old(self).individuals@.remove(i),
            None => final(self).individuals@ == old(self).individuals@,
        },
%loop 0 Option<&OrderingKey>
    *self == *old(self), $all.len() == self.individuals@.len(),
    forall|i: int| #![trigger $all[i]] 0 <= i < $all.len() ==> *$all[i].0 == self.individuals@[i].0 && *$all[i].1 == self.individuals@[i].1,
    $out is Some ==> exists|i: int| 0 <= i < $pos && *$out->Some_0 == (#[trigger] self.individuals@[i]).0 && self.individuals@[i].1.state is Ready,
%at end
    proof { assert forall|i: int| 0 <= i < old(self).individuals@.len() implies #[trigger] pop_ok(*old(self), old(self).individuals@.remove(i)) by { lemma_pop_remove(*old(self), old(self).individuals@, i); } }
%fn AlgoContext::try_reeval
    requires ctx_ok(*old(self)),
    ensures only_rng(*old(self), *final(self)), r ==> old(self).individual_sample_size > 1,
%fn AlgoContext::next_individual
    requires ctx_ok(*old(self)), old(self).next_id < usize::MAX,
    ensures ctx_ok(*final(self)), same_cfg(*old(self), *final(self)),
        is_next(*old(self), *final(self), r),
        old(self).individuals@.len() == 0 ==> is_fresh(*old(self), *final(self), r),
%fn AlgoContext::create_offspring
    requires ctx_ok(*old(self)),
    ensures ctx_ok(*final(self)), only_gen(*old(self), *final(self)),
        conf(old(self).spec.0, r.0.0), mw_ok(r.1),
%loop 0 Vec<&Value>
    $all.len() == self.individuals@.len(), forall|i: int| #![trigger $all[i]] 0 <= i < $all.len() ==> *$all[i] == self.individuals@[i].1,
    $out@.len() == $pos, forall|i: int| #![trigger $out@[i]] 0 <= i < $pos ==> *$out@[i] == self.individuals@[i].1.value,
%fn AlgoContext::next_meta_params
%attr rename clone vx_clone
    requires ctx_ok(*old(self)),
    ensures only_rng(*old(self), *final(self)), mw_ok(r),
%loop 0 Vec<&MetaParamsWrapper>
    $all.len() == self.individuals@.len(), forall|i: int| #![trigger $all[i]] 0 <= i < $all.len() ==> *$all[i] == self.individuals@[i].1,
    forall|i: int| #![trigger $out@[i]] 0 <= i < $out@.len() ==> mw_ok(*$out@[i]),
%at loopstart 0
    proof { assert(ind_ok(self.spec, self.individual_sample_size as int, self.next_id as int, self.individuals@[$pos].1)); }
%fn AlgoContext::summary_obj_func_val(a_s)
    requires st_ok(*a_s, max_samples()), a_s is PendingEval ==> pend(*a_s)@.len() > 0,
    ensures r@ == rank_val(*a_s),
%fn AlgoContext::transition_state(a_s, a_v, a_id)
    requires a_s is PendingEval, st_ok(a_s, self.individual_sample_size as int), self.individual_sample_size <= max_samples(), fbnd(a_v@),
    ensures stepped(a_s, a_v, self.individual_sample_size as int, r), st_ok(r, self.individual_sample_size as int),
%fn AlgoContext::log_top_obj_func_vals
    requires ctx_ok(*self),
%loop 0 Vec<f64>
    $all.len() <= self.individuals@.len(), forall|i: int| #![trigger $all[i]] 0 <= i < $all.len() ==> *$all[i] == self.individuals@[i].1,
%at loopstart 0
    proof { assert(ind_ok(self.spec, self.individual_sample_size as int, self.next_id as int, self.individuals@[$pos].1)); }
%loop 1
    true,
%fn AlgoContext::process_individual_eval(a_ind, a_v)
    requires ctx_ok(*old(self)), a_ind.state is PendingEval, ind_ok(old(self).spec, old(self).individual_sample_size as int, old(self).next_id as int, a_ind),
        forall|i: int| #![trigger old(self).individuals@[i]] 0 <= i < old(self).individuals@.len() ==> old(self).individuals@[i].1.id != a_ind.id,
        a_v is Some ==> fbnd(a_v->Some_0@),
    ensures ctx_ok(*final(self)), processed(*old(self), *final(self), a_ind, a_v),
%at beforeloop 0
    let ghost vx_full = self.individuals@;
%loop 0
    invariant only_pop(*old(self), *self),
    self.individuals@.len() <= vx_full.len(), self.individuals@ =~= vx_full.take(self.individuals@.len() as int),
    self.individuals@.len() == vx_full.len() || self.individuals@.len() >= self.static_params.max_pop_size,
    decreases self.individuals@.len(),
%fn AlgoContext::best_seen_final
    requires ctx_ok(*self),
    ensures match r { Some(b) => is_best(*self, b.0, *b.1), None => no_final(*self) },
%loop 0 Option<(FiniteF64, &Value)>
    $all.len() == self.individuals@.len(), forall|i: int| #![trigger $all[i]] 0 <= i < $all.len() ==> *$all[i] == self.individuals@[i].1,
    match $out {
        Some(b) => 0 < $pos && self.individuals@[$pos - 1].1.state == IndState::Final(b.0) && *b.1 == self.individuals@[$pos - 1].1.value
            && forall|j: int| #![trigger self.individuals@[j]] 0 <= j < $pos - 1 ==> !(self.individuals@[j].1.state is Final),
        None => forall|j: int| #![trigger self.individuals@[j]] 0 <= j < $pos ==> !(self.individuals@[j].1.state is Final),
    },
