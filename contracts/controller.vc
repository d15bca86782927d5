%% The run: C01 - C06, C08, C14 at the level of evaluations started, processed and reported
%mod detailed_report src/detailed_report.rs
%use crate::world::Duration
%types DetailedReportItem

%mod result src/result.rs
%use crate::world::Duration
%types FinalReport BestSeen
%fn FinalReport::new(a_o, a_v, a_c, a_r, a_t)
    ensures r.best_seen.obj_func_val == a_o, r.best_seen.value == a_v, r.num_obj_func_eval_completed == a_c, r.num_obj_func_eval_rejected == a_r,

%mod message src/message.rs
%types Command

%mod world
%use crate::sp::*
%use crate::js::*
%use crate::meta::mw_ok
%use crate::algorithm::{IndContext, IndState, st_ok, ind_ok}
%use crate::smp::*
%use crate::error::Error
%use crate::detailed_report::DetailedReportItem
%use crate::result::FinalReport
%use crate::message::Command
%raw
// The environment of a run: what was handed to it, what it did, what happened to it.
pub ghost struct Cfg { pub n: Option<usize>, pub target: Option<f64>, pub nc: usize, pub ss: usize, pub spec: crate::spec::Spec, pub guess: Option<serde_json::Value> }
/// an evaluation handed to the executor
pub ghost struct Task { pub ind: IndContext, pub seed: u64 }
/// an evaluation whose result was processed
pub ghost struct Done { pub task: Task, pub val: Option<f64> }
/// a call of the objective function
pub ghost struct Call { pub value: serde_json::Value, pub seed: u64, pub id: usize, pub out: Result<Option<f64>, Error> }
pub ghost struct GW {
    pub cfg: Cfg,
    /// a terminate request was delivered to the run
    pub delivered: bool,
    /// the abort was broadcast to the evaluations
    pub sent: bool,
    /// the first failure, if it came before the abort was broadcast
    pub fail: Option<Error>,
    /// the reader of the detailed report is gone
    pub hungup: bool,
    pub pushed: Seq<Task>,
    pub inflight: Seq<Task>,
    pub done: Seq<Done>,
    pub items: Seq<DetailedReportItem>,
    pub calls: Seq<Call>,
    pub lw: LW,
}
/// the command side of a run, as `launch` sees it
pub ghost struct LW {
    /// a terminate command is in the command queue / the sending side is closed
    pub pending: bool, pub closed: bool,
    /// a terminate command was taken from the queue / passed on to the controller
    pub told: bool, pub passed: bool,
    /// what the controller returned
    pub res: Option<Result<FinalReport, Error>>,
}
#[verifier::external_body]
pub struct World { w: u8 }
impl View for World { type V = GW; uninterp spec fn view(&self) -> GW; }
/// time passes: a terminate request may be delivered
pub open spec fn passes(a: GW, b: GW) -> bool { b == (GW { delivered: b.delivered, lw: b.lw, ..a }) && (a.delivered ==> b.delivered)
    && b.lw == (LW { pending: b.lw.pending, closed: b.lw.closed, ..a.lw }) && (a.lw.pending ==> b.lw.pending) && (a.lw.closed ==> b.lw.closed) }
pub open spec fn put_item(a: GW, it: DetailedReportItem) -> GW { GW { items: a.items.push(it), ..a } }
pub open spec fn put_sent(a: GW) -> GW { GW { sent: true, ..a } }
pub open spec fn vals(d: Seq<Done>, id: usize) -> Seq<f64>
    decreases d.len()
{
    if d.len() == 0 { seq![] } else {
        let p = vals(d.drop_last(), id);
        if d.last().task.ind.id == id && d.last().val is Some { p.push(d.last().val->Some_0) } else { p }
    }
}
pub open spec fn cnt(p: Seq<Task>, id: usize) -> nat
    decreases p.len()
{
    if p.len() == 0 { 0 } else { cnt(p.drop_last(), id) + if p.last().ind.id == id { 1nat } else { 0 } }
}
pub open spec fn accepted(d: Seq<Done>) -> nat
    decreases d.len()
{
    if d.len() == 0 { 0 } else { accepted(d.drop_last()) + if d.last().val is Some { 1nat } else { 0 } }
}
pub open spec fn target_hit(w: GW) -> bool {
    w.cfg.ss == 1 && w.cfg.target is Some && exists|k: int| 0 <= k < w.done.len() && (#[trigger] w.done[k]).val is Some && fle(w.done[k].val->Some_0, w.cfg.target->Some_0)
}
/// the record of a processed evaluation
pub open spec fn item_of(it: DetailedReportItem, d: Done) -> bool {
    it.individual_id == d.task.ind.id && it.seed == d.task.seed && js(d.task.ind.value.0, it.input_val) && it.obj_func_val == d.val
        && it.meta_params_used == d.task.ind.meta_params_used && (it.meta_params_used is Some ==> mw_ok(it.meta_params_used->Some_0))
}
pub open spec fn in_prog(w: GW) -> int {
    if w.cfg.n is Some && w.cfg.n->Some_0 - w.done.len() < w.cfg.nc { w.cfg.n->Some_0 - w.done.len() } else { w.cfg.nc as int }
}
pub broadcast proof fn lemma_accepted(d: Seq<Done>, x: Done)
    ensures #[trigger] accepted(d.push(x)) == accepted(d) + if x.val is Some { 1nat } else { 0 }, accepted(d) <= d.len()
{ assert(d.push(x).drop_last() =~= d); lemma_accepted_le(d); }
pub proof fn lemma_accepted_le(d: Seq<Done>) ensures accepted(d) <= d.len() decreases d.len() { if d.len() > 0 { lemma_accepted_le(d.drop_last()); } }
pub open spec fn items_ok(w: GW, n: int) -> bool {
    w.items.len() == n && n <= w.done.len() && forall|k: int| #![trigger w.items[k]] 0 <= k < n ==> item_of(w.items[k], w.done[k])
}
/// an evaluation may be started
pub open spec fn start_ok(w: GW, t: Task) -> bool {
%if C01
    &&& conf(w.cfg.spec.0, t.ind.value.0)
%endif
%if C03
    &&& w.cfg.n is Some ==> w.pushed.len() < w.cfg.n->Some_0
%endif
%if C04
    &&& !w.sent && !target_hit(w)
%endif
%if C05
    &&& w.inflight.len() < w.cfg.nc
    &&& forall|j: int| 0 <= j < w.inflight.len() ==> (#[trigger] w.inflight[j]).ind.id != t.ind.id
%endif
%if C06
    &&& w.fail is None && !w.sent
%endif
%if C08
    &&& forall|j: int| 0 <= j < w.pushed.len() ==> (#[trigger] w.pushed[j]).seed != t.seed && (w.pushed[j].ind.id == t.ind.id ==> w.pushed[j].ind.value == t.ind.value)
    &&& cnt(w.pushed, t.ind.id) < w.cfg.ss
    &&& w.pushed.len() == 0 ==> match w.cfg.guess { Some(j) => rel(w.cfg.spec.0, j, t.ind.value.0), None => is_init(w.cfg.spec.0, t.ind.value.0) }
%endif
    &&& true
}
/// the evaluations may be driven on
pub open spec fn poll_ok(w: GW) -> bool {
%if C04
    &&& w.delivered ==> w.sent || w.inflight.len() == 0
    &&& target_hit(w) ==> w.fail is Some
%endif
%if C05
    &&& !w.delivered && w.fail is None ==> w.inflight.len() == in_prog(w)
%endif
%if C06
    &&& w.fail is Some ==> w.sent
%endif
    &&& true
}
#[verifier::external_body]
pub fn vx_rounds(w: &mut World) ensures passes(old(w)@, final(w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_aw_yield_now(w: &mut World) ensures passes(old(w)@, final(w)@) { unimplemented!() }
/// no branch of a select! ever becomes ready: the run stays suspended
#[verifier::external_body]
pub fn vx_never(w: &mut World) -> ! ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_bool() -> bool { unimplemented!() }

pub mod oneshot {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Canceled { c: u8 }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body]
    pub fn channel() -> (r: (Sender<()>, Receiver<()>)) ensures !r.1@ { unimplemented!() }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    /// the message was taken
    impl<T> View for Receiver<T> { type V = bool; uninterp spec fn view(&self) -> bool; }
    impl Receiver<()> {
        #[verifier::external_body]
        pub fn try_recv(&mut self, w: &mut World) -> (r: Result<Option<()>, Canceled>)
            ensures final(w)@ == old(w)@,
                match r { Ok(Some(_)) => old(w)@.delivered && !old(self)@ && final(self)@, Ok(None) => !old(w)@.delivered && final(self)@ == old(self)@, Err(_) => old(self)@ && final(self)@ } { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<Result<(), Canceled>>)
            requires
                !old(self)@, //@ C04 C06 C15
            ensures final(w)@ == old(w)@, r is Some == old(w)@.delivered, final(self)@ == r is Some { unimplemented!() }
    }
}
impl oneshot::Sender<()> {
    #[verifier::external_body]
    pub fn send(self, m: (), w: &mut World) -> (r: Result<(), ()>)
        ensures final(w)@ == (GW { lw: LW { passed: true, ..old(w)@.lw }, ..old(w)@ }) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
impl Receiver<Command> {
    #[verifier::external_body]
    pub fn vx_poll_next(&mut self, w: &mut World) -> (r: Option<Option<Command>>)
        ensures final(w)@ == (GW { lw: LW { pending: final(w)@.lw.pending, told: final(w)@.lw.told, ..old(w)@.lw }, ..old(w)@ }),
            match r {
                None => !old(w)@.lw.pending && !old(w)@.lw.closed && final(w)@ == old(w)@,
                Some(None) => old(w)@.lw.closed && final(w)@ == old(w)@,
                Some(Some(Command::Terminate)) => old(w)@.lw.pending && final(w)@.lw.told,
            } { unimplemented!() }
}
pub mod async_broadcast {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct SendError { c: u8 }
    #[verifier::external_body] #[derive(Debug)] pub struct TryRecvError { c: u8 }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body]
    pub fn broadcast<T>(n: usize) -> (Sender<T>, Receiver<T>) requires n > 0 { unimplemented!() }
    impl<T> Clone for Receiver<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
    impl Receiver<()> {
        /// the copies of the receiver handed to the evaluations have seen nothing yet
        #[verifier::external_body]
        pub fn try_recv(&mut self, w: &mut World) -> (r: Result<(), TryRecvError>)
            ensures final(w)@ == old(w)@, r is Ok == old(w)@.sent { unimplemented!() }
    }
    impl Sender<()> {
        /// a second broadcast would wait for ever: nobody reads the first message
        #[verifier::external_body]
        pub fn broadcast(&self, m: (), w: &mut World) -> (r: Result<Option<()>, SendError>)
            requires
                !old(w)@.sent, //@ C04 C06 C15
            ensures passes(put_sent(old(w)@), final(w)@), r is Ok { unimplemented!() }
    }
}
#[verifier::external_body] #[derive(Debug)] pub struct SendError { c: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
impl Sender<DetailedReportItem> {
    /// fails only when the reader is gone
    #[verifier::external_body]
    pub fn send(&mut self, it: DetailedReportItem, w: &mut World) -> (r: Result<(), SendError>)
        ensures match r { Ok(_) => passes(put_item(old(w)@, it), final(w)@), Err(_) => passes(GW { hungup: true, ..old(w)@ }, final(w)@) } { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct FuturesUnordered<T> { t: core::marker::PhantomData<T> }
impl<T> View for FuturesUnordered<T> { type V = Seq<Task>; uninterp spec fn view(&self) -> Seq<Task>; }
impl<T> FuturesUnordered<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Task>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body] pub struct Duration { d: u8 }
impl Copy for Duration {}
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// how long something took is not a function of the inputs of a run: it may be passed on, but not looked at
impl Duration {
    #[verifier::external_body] pub fn as_nanos(&self) -> u128
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn as_micros(&self) -> u128
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> u128
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn as_secs(&self) -> u64
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn subsec_nanos(&self) -> u32
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn subsec_micros(&self) -> u32
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn subsec_millis(&self) -> u32
        requires
            false, //@ C09
    { unimplemented!() }
    #[verifier::external_body] pub fn as_secs_f64(&self) -> f64
        requires
            false, //@ C09
    { unimplemented!() }
}
#[verifier::external_body] pub struct Instant { d: u8 }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
}

%mod meta src/meta.rs
%types AlgoConfig
%use crate::world::*
%raw
/// the objective function is only ever called for an evaluation that was not told to abort
pub trait AsyncObjectiveFunction: Sized {
    fn evaluate(&self, value: serde_json::Value, abort_signal_recv: async_broadcast::Receiver<()>, seed: u64, individual_id: usize, w: &mut World) -> (r: Result<Option<f64>, Error>)
%if C04 C06
        requires !old(w)@.sent,
%endif
        ensures final(w)@ == (GW { calls: old(w)@.calls.push(Call { value, seed, id: individual_id, out: r }), delivered: final(w)@.delivered, sent: final(w)@.sent, ..old(w)@ }),
            r is Ok && r->Ok_0 is Some && isfin(r->Ok_0->Some_0) ==> fbnd(r->Ok_0->Some_0);
}

%mod controller src/controller.rs
%types EvaluatedIndividual SeedManager
%mod hist
%use crate::world::*
%use crate::sp::*
%use crate::js::*
%use crate::smp::*
%use crate::controller::EvaluatedIndividual
%use crate::error::Error
%use crate::algorithm::*
%raw
/// what an evaluation resolves to, given what the objective function returned (None: it was not called)
pub open spec fn outcome(t: Task, o: Option<Result<Option<f64>, Error>>, r: Result<Option<EvaluatedIndividual>, Error>) -> bool {
    match o {
        None => r is Ok && r->Ok_0 is None,
        Some(Err(e)) => r == Err::<Option<EvaluatedIndividual>, Error>(e),
        Some(Ok(Some(x))) if !isfin(x) => r == Err::<Option<EvaluatedIndividual>, Error>(Error::ObjFuncValMustBeFinite),
        Some(Ok(v)) => r is Ok && r->Ok_0 is Some && ev_of(r->Ok_0->Some_0, t, v),
    }
}
pub open spec fn ev_of(e: EvaluatedIndividual, t: Task, v: Option<f64>) -> bool {
    e.ind_ctx == t.ind && e.seed == t.seed && match v { Some(x) => e.obj_func_val is Some && e.obj_func_val->Some_0@ == x, None => e.obj_func_val is None }
}
/// an evaluation ended: it is no longer in flight, and resolved as `evaluate_individual` promises
pub open spec fn ended(a: GW, b: GW, i: int, o: Option<Result<Option<f64>, Error>>, r: Result<Option<EvaluatedIndividual>, Error>) -> bool {
    &&& 0 <= i < a.inflight.len()
    &&& outcome(a.inflight[i], o, r)
    &&& o is None ==> a.sent
    &&& o is Some && o->Some_0 is Ok && o->Some_0->Ok_0 is Some && isfin(o->Some_0->Ok_0->Some_0) ==> fbnd(o->Some_0->Ok_0->Some_0)
    &&& b == (GW { inflight: a.inflight.remove(i),
            done: if r is Ok && r->Ok_0 is Some { a.done.push(Done { task: a.inflight[i], val: o->Some_0->Ok_0 }) } else { a.done },
            fail: if r is Err && !a.sent && a.fail is None { Some(r->Err_0) } else { a.fail }, ..a })
}
pub open spec fn st_vals(s: IndState, v: Seq<f64>, n: int) -> bool {
    match s { IndState::PendingEval(x) => smp(x) == v, IndState::Ready(x) => smp(x) == v, IndState::Final(x) => v.len() == n && x@ == fmean(v) }
}
pub open spec fn same_val(p: Seq<Task>, i: IndContext) -> bool { forall|j: int| 0 <= j < p.len() && (#[trigger] p[j]).ind.id == i.id ==> p[j].ind.value == i.value }
/// how the population relates to the evaluations pushed, in flight and done so far
#[verifier::opaque]
pub open spec fn hist(c: AlgoContext, cfg: Cfg, p: Seq<Task>, f: Seq<Task>, d: Seq<Done>, ns: u64) -> bool {
    &&& ctx_ok(c) && c.spec == cfg.spec && c.individual_sample_size == cfg.ss
    &&& forall|i: int| #![trigger c.individuals@[i]] 0 <= i < c.individuals@.len() ==> pop_hist(c.individuals@[i].1, p, d, cfg.ss as int)
    &&& forall|j: int| #![trigger f[j]] 0 <= j < f.len() ==> inf_hist(c, p, d, cfg.ss as int, f[j].ind) && p.contains(f[j])
    &&& forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() ==> f[i].ind.id != f[j].ind.id
    &&& forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> p[j].ind.id < c.next_id
%if C08
    &&& forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> p[j].seed < ns
%endif
    &&& forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> p.contains(d[j].task) && (d[j].val is Some ==> isfin(d[j].val->Some_0))
    &&& c.next_id <= p.len()
%if C08
    &&& c.initial_value_used == (p.len() > 0)
    &&& match cfg.guess { Some(j) => rel(cfg.spec.0, j, c.initial_value.0), None => is_init(cfg.spec.0, c.initial_value.0) }
%endif
%if C02 C04
    &&& cfg.ss == 1 ==> best_first(c, d)
%endif
}
pub open spec fn pop_hist(i: IndContext, p: Seq<Task>, d: Seq<Done>, n: int) -> bool {
%if C02 C04 C08
    &&& cnt(p, i.id) == vals(d, i.id).len() && vals(d, i.id).len() > 0 && st_vals(i.state, vals(d, i.id), n) && same_val(p, i)
%endif
    &&& true
}
pub open spec fn inf_hist(c: AlgoContext, p: Seq<Task>, d: Seq<Done>, n: int, t: IndContext) -> bool {
    &&& t.state is PendingEval && ind_ok(c.spec, n, c.next_id as int, t)
%if C02 C04 C08
    &&& cnt(p, t.id) == vals(d, t.id).len() + 1 && st_vals(t.state, vals(d, t.id), n) && same_val(p, t)
%endif
    &&& forall|i: int| #![trigger c.individuals@[i]] 0 <= i < c.individuals@.len() ==> c.individuals@[i].1.id != t.id
}
/// sample size 1: the first of the population is a minimum of everything that was accepted
pub open spec fn best_first(c: AlgoContext, d: Seq<Done>) -> bool {
    forall|k: int| #![trigger d[k]] 0 <= k < d.len() && d[k].val is Some ==> c.individuals@.len() > 0 && fle(c.individuals@[0].0.obj_func_val@, d[k].val->Some_0)
}
/// the part of `start_ok` that follows from the history
pub open spec fn fits(cfg: Cfg, p: Seq<Task>, f: Seq<Task>, t: Task) -> bool {
    &&& conf(cfg.spec.0, t.ind.value.0)
    &&& forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).ind.id != t.ind.id
%if C08
    &&& forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).seed != t.seed && (p[j].ind.id == t.ind.id ==> p[j].ind.value == t.ind.value)
    &&& cnt(p, t.ind.id) < cfg.ss
    &&& p.len() == 0 ==> match cfg.guess { Some(j) => rel(cfg.spec.0, j, t.ind.value.0), None => is_init(cfg.spec.0, t.ind.value.0) }
%endif
    &&& true
}
// -- counting
proof fn lemma_cnt_push(p: Seq<Task>, t: Task, id: usize) ensures cnt(p.push(t), id) == cnt(p, id) + if t.ind.id == id { 1nat } else { 0 }
{ assert(p.push(t).drop_last() =~= p); }
proof fn lemma_vals_push(d: Seq<Done>, x: Done, id: usize)
    ensures vals(d.push(x), id) == if x.task.ind.id == id && x.val is Some { vals(d, id).push(x.val->Some_0) } else { vals(d, id) }
{ assert(d.push(x).drop_last() =~= d); }
proof fn lemma_cnt_zero(p: Seq<Task>, id: usize)
    requires forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).ind.id != id
    ensures cnt(p, id) == 0 decreases p.len()
{ if p.len() > 0 { assert forall|j: int| 0 <= j < p.drop_last().len() implies (#[trigger] p.drop_last()[j]).ind.id != id by { let x = p[j]; } lemma_cnt_zero(p.drop_last(), id); } }
proof fn lemma_vals_none(d: Seq<Done>, id: usize)
    requires forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j]).task.ind.id != id
    ensures vals(d, id).len() == 0 decreases d.len()
{ if d.len() > 0 { assert forall|j: int| 0 <= j < d.drop_last().len() implies (#[trigger] d.drop_last()[j]).task.ind.id != id by { let x = d[j]; } lemma_vals_none(d.drop_last(), id); } }
proof fn lemma_vals_wit(d: Seq<Done>, id: usize)
    requires vals(d, id).len() > 0
    ensures exists|k: int| 0 <= k < d.len() && (#[trigger] d[k]).task.ind.id == id && d[k].val is Some && (vals(d, id).len() == 1 ==> vals(d, id) == seq![d[k].val->Some_0])
    decreases d.len()
{
    let q = d.drop_last();
    if d.last().task.ind.id == id && d.last().val is Some {
        let k = d.len() - 1; assert(d[k].task.ind.id == id);
        if vals(d, id).len() == 1 { assert(vals(d, id) =~= seq![d[k].val->Some_0]); }
    } else {
        lemma_vals_wit(q, id);
        let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).task.ind.id == id && q[k].val is Some && (vals(q, id).len() == 1 ==> vals(q, id) == seq![q[k].val->Some_0]);
        assert(d[k] == q[k]);
    }
}
// -- the steps of a run
pub broadcast proof fn lemma_hist_start(c: AlgoContext, cfg: Cfg, p: Seq<Task>, f: Seq<Task>, d: Seq<Done>, ns: u64)
    requires ctx_ok(c), c.individuals@.len() == 0, c.next_id == 0, !c.initial_value_used, c.spec == cfg.spec, c.individual_sample_size == cfg.ss,
        p.len() == 0, f.len() == 0, d.len() == 0, match cfg.guess { Some(j) => rel(cfg.spec.0, j, c.initial_value.0), None => is_init(cfg.spec.0, c.initial_value.0) }
    ensures #[trigger] hist(c, cfg, p, f, d, ns)
{ reveal(hist); }
pub broadcast proof fn lemma_hist_ctx(c: AlgoContext, cfg: Cfg, p: Seq<Task>, f: Seq<Task>, d: Seq<Done>, ns: u64)
    requires #[trigger] hist(c, cfg, p, f, d, ns)
    ensures ctx_ok(c), c.next_id <= p.len(), c.spec == cfg.spec
{ reveal(hist); }
/// what is handed out next fits the history
pub broadcast proof fn lemma_hist_fits(c: AlgoContext, c1: AlgoContext, r: IndContext, cfg: Cfg, p: Seq<Task>, f: Seq<Task>, d: Seq<Done>, ns: u64)
    requires #[trigger] hist(c, cfg, p, f, d, ns), #[trigger] is_next(c, c1, r)
    ensures fits(cfg, p, f, Task { ind: r, seed: ns })
{
    reveal(hist);
    if is_fresh(c, c1, r) {
        lemma_cnt_zero(p, r.id);
    } else {
        let i = choose|i: int| #![trigger c.individuals@[i]] is_reeval(c, c1, r, i);
        assert(pop_hist(c.individuals@[i].1, p, d, cfg.ss as int));
    }
}
pub broadcast proof fn lemma_hist_push(c: AlgoContext, c1: AlgoContext, r: IndContext, cfg: Cfg, p: Seq<Task>, f: Seq<Task>, d: Seq<Done>, ns: u64, ns1: u64, p1: Seq<Task>, f1: Seq<Task>)
    requires #[trigger] hist(c, cfg, p, f, d, ns), #[trigger] is_next(c, c1, r), ctx_ok(c1),
%if C08
        ns1 > ns,
%endif
        p1 == p.push(Task { ind: r, seed: ns }), f1 == f.push(Task { ind: r, seed: ns }),
    ensures #[trigger] hist(c1, cfg, p1, f1, d, ns1)
{
    reveal(hist);
    let t = Task { ind: r, seed: ns };
    let n = cfg.ss as int;
    let q = c1.individuals@;
    lemma_hist_fits(c, c1, r, cfg, p, f, d, ns);
    lemma_cnt_push(p, t, r.id);
    assert(p1[p.len() as int] == t);
    assert forall|k: int| 0 <= k < p.len() implies p1[k] == #[trigger] p[k] by {}
    assert forall|x: Task| #[trigger] p.contains(x) implies p1.contains(x) by { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(p1[k] == x); }
    if is_fresh(c, c1, r) {
        lemma_cnt_zero(p, r.id);
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).task.ind.id != r.id by { let k = choose|k: int| 0 <= k < p.len() && p[k] == d[j].task; assert(p[k].ind.id < c.next_id); }
        lemma_vals_none(d, r.id);
%if C02 C04 C08
        assert(vals(d, r.id) =~= smp(pend(r.state)));
%endif
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies pop_hist(q[i].1, p1, d, n) && q[i].1.id != r.id by {
            assert(pop_hist(c.individuals@[i].1, p, d, n)); lemma_cnt_push(p, t, q[i].1.id);
        }
        assert forall|j: int| #![trigger f[j]] 0 <= j < f.len() implies inf_hist(c1, p1, d, n, f[j].ind) && f[j].ind.id != r.id by { assert(inf_hist(c, p, d, n, f[j].ind)); lemma_cnt_push(p, t, f[j].ind.id); }
        assert(inf_hist(c1, p1, d, n, r));
    } else {
        let i = choose|i: int| #![trigger c.individuals@[i]] is_reeval(c, c1, r, i);
        let e = c.individuals@[i].1;
        assert(pop_hist(e, p, d, n));
        assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() implies pop_hist(q[k].1, p1, d, n) && q[k].1.id != r.id && q[k] == c.individuals@[if k < i { k } else { k + 1 }] by {
            let k0 = if k < i { k } else { k + 1 };
            assert(q[k] == c.individuals@[k0]);
            assert(pop_hist(c.individuals@[k0].1, p, d, n)); lemma_cnt_push(p, t, q[k].1.id);
            if k0 < i { assert(c.individuals@[k0].1.id != c.individuals@[i].1.id); } else { assert(c.individuals@[i].1.id != c.individuals@[k0].1.id); }
        }
        assert forall|j: int| #![trigger f[j]] 0 <= j < f.len() implies inf_hist(c1, p1, d, n, f[j].ind) && f[j].ind.id != r.id by {
            assert(inf_hist(c, p, d, n, f[j].ind)); assert(c.individuals@[i].1.id != f[j].ind.id); lemma_cnt_push(p, t, f[j].ind.id);
        }
        assert(inf_hist(c1, p1, d, n, r));
%if C02 C04
        if n == 1 { assert(st_ok(e.state, 1)); }
%endif
    }
    assert forall|j: int| #![trigger f1[j]] 0 <= j < f1.len() implies inf_hist(c1, p1, d, n, f1[j].ind) && p1.contains(f1[j]) by { if j < f.len() { assert(f1[j] == f[j]); assert(p.contains(f[j])); } }
    assert forall|i: int, j: int| #![trigger f1[i], f1[j]] 0 <= i < j < f1.len() implies f1[i].ind.id != f1[j].ind.id by { assert(f1[i] == f[i]); if j < f.len() { assert(f1[j] == f[j]); } }
}
/// an evaluation ended without a result to process
pub broadcast proof fn lemma_hist_drop(c: AlgoContext, a: GW, b: GW, i: int, o: Option<Result<Option<f64>, Error>>, r: Result<Option<EvaluatedIndividual>, Error>, ns: u64)
    requires #[trigger] hist(c, a.cfg, a.pushed, a.inflight, a.done, ns), #[trigger] ended(a, b, i, o, r)
    ensures r is Err || r->Ok_0 is None ==> hist(c, b.cfg, b.pushed, b.inflight, b.done, ns),
        ({ let t = a.inflight[i].ind; t.state is PendingEval && ind_ok(c.spec, c.individual_sample_size as int, c.next_id as int, t) && finv(t.value.0)
            && forall|k: int| #![trigger c.individuals@[k]] 0 <= k < c.individuals@.len() ==> c.individuals@[k].1.id != t.id }),
        a.pushed.contains(a.inflight[i]),
{
    reveal(hist);
    let t = a.inflight[i];
    assert(inf_hist(c, a.pushed, a.done, a.cfg.ss as int, t.ind));
    lemma_conf_finv(c.spec.0, t.ind.value.0);
    if r is Err || r->Ok_0 is None {
        let f = b.inflight;
        assert forall|j: int| #![trigger f[j]] 0 <= j < f.len() implies f[j] == a.inflight[if j < i { j } else { j + 1 }] by {}
    }
}
/// the result of an evaluation was processed
pub broadcast proof fn lemma_hist_done(c: AlgoContext, c1: AlgoContext, a: GW, b: GW, i: int, o: Option<Result<Option<f64>, Error>>, r: Result<Option<EvaluatedIndividual>, Error>, ind: IndContext, v: Option<FiniteF64>, ns: u64)
    requires #[trigger] hist(c, a.cfg, a.pushed, a.inflight, a.done, ns), #[trigger] ended(a, b, i, o, r), #[trigger] processed(c, c1, ind, v), ctx_ok(c1),
        r is Ok, r->Ok_0 is Some, r->Ok_0->Some_0.ind_ctx == ind, r->Ok_0->Some_0.obj_func_val == v,
    ensures hist(c1, b.cfg, b.pushed, b.inflight, b.done, ns)
{
    reveal(hist);
    let t = a.inflight[i];
    let d1 = b.done;
    let f1 = b.inflight;
    let p = a.pushed;
    let n = a.cfg.ss as int;
    let x = Done { task: t, val: o->Some_0->Ok_0 };
    assert(d1 == a.done.push(x));
    assert(inf_hist(c, p, a.done, n, t.ind));
    lemma_vals_push(a.done, x, ind.id);
    assert forall|j: int| #![trigger f1[j]] 0 <= j < f1.len() implies f1[j] == a.inflight[if j < i { j } else { j + 1 }] && f1[j].ind.id != ind.id by {
        let j0 = if j < i { j } else { j + 1 };
        if j0 < i { assert(a.inflight[j0].ind.id != a.inflight[i].ind.id); } else { assert(a.inflight[i].ind.id != a.inflight[j0].ind.id); }
    }
    assert forall|j: int| #![trigger d1[j]] 0 <= j < d1.len() implies p.contains(d1[j].task) && (d1[j].val is Some ==> isfin(d1[j].val->Some_0)) by { if j < a.done.len() { assert(d1[j] == a.done[j]); } }
    let q0 = c.individuals@;
    let q = c1.individuals@;
    if v is Some {
        let (s, k, e) = choose|s: int, k: OrderingKey, e: IndContext| #![trigger q0.insert(s, (k, e))] bt_slot(q0, k, s)
            && k.id == ind.id && e.id == ind.id && e.value == ind.value && e.meta_params_used == ind.meta_params_used
            && k.obj_func_val@ == rank_val(e.state) && stepped(ind.state, v->Some_0, n, e.state)
            && q == q0.insert(s, (k, e)).take(if q0.len() + 1 <= c.static_params.max_pop_size { (q0.len() + 1) as int } else { c.static_params.max_pop_size as int });
        let full = q0.insert(s, (k, e));
%if C02 C04 C08
        assert(vals(d1, ind.id) == smp(pend(ind.state)).push(v->Some_0@));
%endif
        assert(pop_hist(e, p, d1, n));
        assert forall|m: int| #![trigger q[m]] 0 <= m < q.len() implies pop_hist(q[m].1, p, d1, n)
            && (q[m] == (k, e) || 0 <= (if m < s { m } else { m - 1 }) < q0.len() && q[m] == q0[if m < s { m } else { m - 1 }]) by {
            assert(q[m] == full[m]);
            if m != s {
                let m0 = if m < s { m } else { m - 1 };
                assert(q[m] == q0[m0]);
                assert(pop_hist(q0[m0].1, p, a.done, n));
                lemma_vals_push(a.done, x, q[m].1.id);
            }
        }
        assert forall|j: int| #![trigger f1[j]] 0 <= j < f1.len() implies inf_hist(c1, p, d1, n, f1[j].ind) by {
            let j0 = if j < i { j } else { j + 1 };
            assert(inf_hist(c, p, a.done, n, a.inflight[j0].ind));
            lemma_vals_push(a.done, x, f1[j].ind.id);
        }
%if C02 C04
        if n == 1 {
            ax_mean_one(v->Some_0@);
            assert(smp(pend(ind.state)).push(v->Some_0@) =~= seq![v->Some_0@]);
            assert(q.len() > 0 && q[0] == full[0]);
            assert(k.obj_func_val@ == v->Some_0@);
            if s > 0 { assert(full[0] == q0[0]); assert(OrderingKey::vx_lt(q0[0].0, k)); }
            assert forall|m: int| #![trigger d1[m]] 0 <= m < d1.len() && d1[m].val is Some implies fle(q[0].0.obj_func_val@, d1[m].val->Some_0) by {
                if m < a.done.len() {
                    assert(d1[m] == a.done[m]);
                    assert(fle(q0[0].0.obj_func_val@, a.done[m].val->Some_0));
                    if s == 0 { assert(OrderingKey::vx_lt(k, q0[0].0)); }
                }
            }
        }
%endif
    } else {
        assert forall|m: int| #![trigger q[m]] 0 <= m < q.len() implies pop_hist(q[m].1, p, d1, n) by { assert(pop_hist(q0[m].1, p, a.done, n)); lemma_vals_push(a.done, x, q[m].1.id); }
        assert forall|j: int| #![trigger f1[j]] 0 <= j < f1.len() implies inf_hist(c1, p, d1, n, f1[j].ind) by {
            let j0 = if j < i { j } else { j + 1 };
            assert(inf_hist(c, p, a.done, n, a.inflight[j0].ind));
            lemma_vals_push(a.done, x, f1[j].ind.id);
        }
%if C02 C04
        assert forall|m: int| #![trigger d1[m]] 0 <= m < d1.len() && d1[m].val is Some implies q.len() > 0 && (n == 1 ==> fle(q[0].0.obj_func_val@, d1[m].val->Some_0)) || n != 1 by {
            if m < a.done.len() { assert(d1[m] == a.done[m]); }
        }
%endif
    }
}
/// what is reported as the best seen is right
#[verifier::opaque]
pub open spec fn best_right(w: GW, x: f64, v: crate::value::Value) -> bool {
    &&& exists|k: int| 0 <= k < w.done.len() && (#[trigger] w.done[k]).task.ind.value == v && vals(w.done, w.done[k].task.ind.id).len() == w.cfg.ss && x == fmean(vals(w.done, w.done[k].task.ind.id))
        && (w.cfg.ss == 1 ==> w.done[k].val == Some(x))
    &&& w.cfg.ss == 1 ==> forall|k: int| #![trigger w.done[k]] 0 <= k < w.done.len() && w.done[k].val is Some ==> fle(x, w.done[k].val->Some_0)
    &&& conf(w.cfg.spec.0, v.0)
}
pub broadcast proof fn lemma_hist_best(c: AlgoContext, w: GW, ns: u64, x: FiniteF64, v: crate::value::Value)
    requires #[trigger] hist(c, w.cfg, w.pushed, w.inflight, w.done, ns), #[trigger] is_best(c, x, v)
    ensures conf(w.cfg.spec.0, v.0), finv(v.0),
%if C02 C04
        best_right(w, x@, v), target_hit(w) ==> fle(x@, w.cfg.target->Some_0),
%endif
{
    reveal(hist);
    reveal(best_right);
    let q = c.individuals@;
    let i = choose|i: int| #![trigger q[i]] 0 <= i < q.len() && q[i].1.state == IndState::Final(x) && v == q[i].1.value && forall|j: int| #![trigger q[j]] 0 <= j < i ==> !(q[j].1.state is Final);
    assert(pop_hist(q[i].1, w.pushed, w.done, w.cfg.ss as int));
    let id = q[i].1.id;
    lemma_conf_finv(c.spec.0, v.0);
%if C02 C04
    lemma_vals_wit(w.done, id);
    let k = choose|k: int| 0 <= k < w.done.len() && (#[trigger] w.done[k]).task.ind.id == id && w.done[k].val is Some && (vals(w.done, id).len() == 1 ==> vals(w.done, id) == seq![w.done[k].val->Some_0]);
    let m = choose|m: int| 0 <= m < w.pushed.len() && w.pushed[m] == w.done[k].task;
    assert(w.pushed[m].ind.id == id);
    assert(w.done[k].task.ind.value == v);
    if w.cfg.ss == 1 {
        assert(st_ok(q[0].1.state, 1));
        assert(i == 0);
        ax_mean_one(w.done[k].val->Some_0);
    }
%endif
}
%if C02 C04
pub broadcast proof fn lemma_hist_none(c: AlgoContext, w: GW, ns: u64)
    requires #[trigger] hist(c, w.cfg, w.pushed, w.inflight, w.done, ns), no_final(c), w.cfg.ss == 1
    ensures accepted(w.done) == 0, !target_hit(w)
{
    reveal(hist);
    let q = c.individuals@;
    if q.len() > 0 { assert(st_ok(q[0].1.state, 1)); assert(false); }
    lemma_none_accepted(w.done);
}
proof fn lemma_none_accepted(d: Seq<Done>)
    requires forall|k: int| #![trigger d[k]] 0 <= k < d.len() ==> d[k].val is None
    ensures accepted(d) == 0 decreases d.len()
{ if d.len() > 0 { let q = d.drop_last(); assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() implies q[k].val is None by { let x = d[k]; } lemma_none_accepted(q); } }
%endif
%mod controller src/controller.rs
%use crate::hist::*
%use broadcast crate::hist::lemma_hist_start, crate::hist::lemma_hist_ctx, crate::hist::lemma_hist_fits, crate::hist::lemma_hist_push, crate::hist::lemma_hist_drop, crate::hist::lemma_hist_done, crate::hist::lemma_hist_best, crate::world::lemma_accepted
%if C02 C04
%use broadcast crate::hist::lemma_hist_none
%endif

%use crate::world::*
%use crate::sp::*
%use crate::js::*
%use crate::smp::*
%use crate::algorithm::{is_next, processed, is_best, no_final, ctx_ok}
%raw
/// what is true of a run when it ends
pub open spec fn run_ok(w: GW, r: Result<FinalReport, Error>) -> bool {
%if C02 C04
    &&& r is Ok ==> exists|v: crate::value::Value| js(v.0, r->Ok_0.best_seen.value) && #[trigger] best_right(w, r->Ok_0.best_seen.obj_func_val, v)
    &&& r == Err::<FinalReport, Error>(Error::NoIndividuals) && w.fail is None && w.cfg.ss == 1 ==> accepted(w.done) == 0
%endif
%if C01
    &&& r is Ok ==> exists|v: crate::value::Value| js(v.0, r->Ok_0.best_seen.value) && #[trigger] conf(w.cfg.spec.0, v.0)
%endif
%if C03
    &&& w.cfg.n is Some ==> w.pushed.len() <= w.cfg.n->Some_0
    &&& w.cfg.n is Some && w.cfg.target is None && w.fail is None && !w.delivered && r is Ok ==> r->Ok_0.num_obj_func_eval_completed + r->Ok_0.num_obj_func_eval_rejected == w.cfg.n->Some_0
%endif
%if C04
    &&& w.inflight.len() > 0 ==> w.hungup || w.cfg.target is Some && r is Ok && fle(r->Ok_0.best_seen.obj_func_val, w.cfg.target->Some_0)
    &&& target_hit(w) && w.fail is None && !w.hungup ==> r is Ok && fle(r->Ok_0.best_seen.obj_func_val, w.cfg.target->Some_0)
%endif
%if C06
    &&& w.fail is Some && !w.hungup ==> r == Err::<FinalReport, Error>(w.fail->Some_0) && w.sent && w.inflight.len() == 0
%endif
%if C14
    &&& r is Ok ==> r->Ok_0.num_obj_func_eval_completed == accepted(w.done) && r->Ok_0.num_obj_func_eval_rejected == w.done.len() - accepted(w.done)
    &&& !w.hungup ==> items_ok(w, w.done.len() as int)
%endif
    &&& true
}
/// the counts and the best of a report, read off the records: what `launch.vc` relies on
pub open spec fn item_vals(s: Seq<DetailedReportItem>) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { item_vals(s.drop_last()) + if s.last().obj_func_val is Some { 1nat } else { 0 } } }
pub proof fn lemma_item_vals(s: Seq<DetailedReportItem>, d: Seq<Done>)
    requires s.len() == d.len(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> item_of(s[k], d[k])
    ensures item_vals(s) == accepted(d)
    decreases s.len()
{ if s.len() > 0 { lemma_item_vals(s.drop_last(), d.drop_last()); assert(item_of(s[s.len() - 1], d[d.len() - 1])); } }
pub proof fn lemma_matches(w: GW, x: f64, v: crate::value::Value)
    requires best_right(w, x, v), w.cfg.ss == 1, items_ok(w, w.done.len() as int),
    ensures item_vals(w.items) == accepted(w.done),
        exists|k: int| 0 <= k < w.items.len() && (#[trigger] w.items[k]).obj_func_val == Some(x) && forall|j: int| 0 <= j < w.items.len() && (#[trigger] w.items[j]).obj_func_val is Some ==> fle(x, w.items[j].obj_func_val->Some_0),
{
    reveal(best_right);
    lemma_item_vals(w.items, w.done);
    let k = choose|k: int| 0 <= k < w.done.len() && (#[trigger] w.done[k]).task.ind.value == v && vals(w.done, w.done[k].task.ind.id).len() == w.cfg.ss && x == fmean(vals(w.done, w.done[k].task.ind.id)) && (w.cfg.ss == 1 ==> w.done[k].val == Some(x));
    assert(item_of(w.items[k], w.done[k]));
    assert forall|j: int| 0 <= j < w.items.len() && (#[trigger] w.items[j]).obj_func_val is Some implies fle(x, w.items[j].obj_func_val->Some_0) by { assert(item_of(w.items[j], w.done[j])); assert(w.done[j].val is Some); }
}
#[verifier::external_body] pub struct TaskFut { t: u8 }
impl View for TaskFut { type V = Task; uninterp spec fn view(&self) -> Task; }
/// what the objective function returned between two moments, if it was called
pub open spec fn called(a: GW, b: GW) -> Option<Result<Option<f64>, Error>> { if b.calls.len() == a.calls.len() { None } else { Some(b.calls.last().out) } }
#[verifier::external_body]
pub fn evaluate_individual_fut<F: AsyncObjectiveFunction>(ind: IndContext, f: &F, a: async_broadcast::Receiver<()>, seed: u64, w: &mut World) -> (r: TaskFut)
    requires start_ok(old(w)@, Task { ind, seed }),
    ensures r@ == (Task { ind, seed }), final(w)@ == (GW { pushed: old(w)@.pushed.push(r@), inflight: old(w)@.inflight.push(r@), ..old(w)@ }),
{ unimplemented!() }
impl FuturesUnordered<TaskFut> {
    #[verifier::external_body]
    pub fn push(&mut self, t: TaskFut) ensures final(self)@ == old(self)@.push(t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_poll_try_next(&mut self, w: &mut World) -> (r: Option<Result<Option<Option<EvaluatedIndividual>>, Error>>)
        requires old(self)@ == old(w)@.inflight, poll_ok(old(w)@),
        ensures final(self)@ == final(w)@.inflight, final(w)@.pushed.len() < usize::MAX,
            match r {
                None => final(w)@ == old(w)@,
                Some(Ok(None)) => final(w)@ == old(w)@ && old(w)@.inflight.len() == 0,
                Some(Ok(Some(e))) => exists|i: int, o: Option<Result<Option<f64>, Error>>| #[trigger] ended(old(w)@, final(w)@, i, o, Ok(e)),
                Some(Err(e)) => exists|i: int, o: Option<Result<Option<f64>, Error>>| #[trigger] ended(old(w)@, final(w)@, i, o, Err(e)),
            } { unimplemented!() }
}
%fn SeedManager::new
    ensures r.next_seed == 0,
%fn SeedManager::next_seed
    requires old(self).next_seed < u64::MAX, //@ C09 C15
    ensures
        r == old(self).next_seed, final(self).next_seed == old(self).next_seed + 1, //@ C08 C09 C15
%fn evaluate_individual(a_ind, a_f, a_abort, a_seed)
%attr effects try_recv
    requires finv(a_ind.value.0),
    ensures outcome(Task { ind: a_ind, seed: a_seed }, called(old(vx_w)@, final(vx_w)@), r),
        match called(old(vx_w)@, final(vx_w)@) {
            None => old(vx_w)@.sent && final(vx_w)@.calls == old(vx_w)@.calls,
            Some(x) => !old(vx_w)@.sent && final(vx_w)@.calls.len() == old(vx_w)@.calls.len() + 1 && final(vx_w)@.calls.drop_last() =~= old(vx_w)@.calls
                && ({ let c = final(vx_w)@.calls.last(); c.seed == a_seed && c.id == a_ind.id && c.out == x && js(a_ind.value.0, c.value) }),
        },
%raw
/// what a run is started with
pub open spec fn run_pre(w: GW, a_cfg: AlgoConfig, a_spec: Spec, a_n: Option<usize>, a_target: Option<f64>, a_guess: Option<serde_json::Value>) -> bool {
    &&& wf(a_spec.0) && 1 <= a_cfg.individual_sample_size <= max_samples() && a_cfg.num_concurrent >= 1
    &&& w.cfg == (Cfg { n: a_n, target: a_target, nc: a_cfg.num_concurrent, ss: a_cfg.individual_sample_size, spec: a_spec, guess: a_guess })
    &&& !w.sent && w.fail is None && !w.hungup && w.pushed.len() == 0 && w.inflight.len() == 0 && w.done.len() == 0 && w.items.len() == 0
}
%fn start_controller(a_cfg, a_spec, a_f, a_abort, a_rep, a_n, a_target, a_guess)
%attr effects try_recv
%attr #[verifier::exec_allows_no_decreases_clause]
    requires run_pre(old(vx_w)@, a_cfg, a_spec, a_n, a_target, a_guess), !a_abort@,
    ensures run_ok(final(vx_w)@, r),
%loop 0
    hist(algo_ctx, vx_w@.cfg, vx_w@.pushed, vx_w@.inflight, vx_w@.done, seed_mgr.next_seed), //@ C01 C02 C04 C05 C08 C14 C15
    seed_mgr.next_seed == $pos, //@ C08 C09 C15
    evaled_individuals@ == vx_w@.inflight, vx_w@.pushed.len() == $pos, vx_w@.inflight.len() == $pos, vx_w@.done.len() == 0, vx_w@.items.len() == 0,
    vx_w@.cfg == old(vx_w)@.cfg, !vx_w@.sent, vx_w@.fail is None, !vx_w@.hungup, vx_w@.delivered == old(vx_w)@.delivered,
%loop 1
    invariant evaled_individuals@ == vx_w@.inflight, vx_w@.cfg == old(vx_w)@.cfg, !vx_w@.hungup,
    hist(algo_ctx, vx_w@.cfg, vx_w@.pushed, vx_w@.inflight, vx_w@.done, seed_mgr.next_seed), //@ C01 C02 C04 C05 C08 C14 C15
    seed_mgr.next_seed == vx_w@.pushed.len(), //@ C08 C09 C15
    vx_w@.done.len() + vx_w@.inflight.len() <= vx_w@.pushed.len(),
    abort_signal_received ==> vx_w@.delivered || vx_w@.fail is Some, //@ C03 C05
    abort_signal_received ==> vx_w@.sent || vx_w@.inflight.len() == 0 && vx_w@.pushed.len() == 0, //@ C04
    !abort_signal_received ==> !vx_w@.sent && !in_abort_signal_recv@, //@ C04 C06 C15
    !abort_signal_received ==> vx_w@.fail is None, //@ C06
    vx_w@.sent ==> abort_signal_received, //@ C04
    vx_w@.fail is Some ==> vx_w@.sent, //@ C04 C06
    error_recording == vx_w@.fail, //@ C02 C03 C04 C06
    pushed_for_eval_count == vx_w@.pushed.len(), //@ C03 C05 C06 C15
    count_accepted + count_rejected <= vx_w@.done.len(), //@ C03 C05 C06 C14 C15
    count_accepted + count_rejected == vx_w@.done.len(), //@ C03 C05 C14
    count_accepted == accepted(vx_w@.done), //@ C14
    a_n is Some ==> vx_w@.pushed.len() <= a_n->Some_0, //@ C03 C05
    !abort_signal_received ==> vx_w@.done.len() + vx_w@.inflight.len() == vx_w@.pushed.len(), //@ C03 C05
    !abort_signal_received ==> vx_w@.inflight.len() == in_prog(vx_w@), //@ C03 C05
%if C04
    target_hit(vx_w@) ==> vx_w@.fail is Some,
%endif
    items_ok(vx_w@, vx_w@.done.len() as int), //@ C14

%mod async_launch src/async_launch.rs
%use crate::world::*
%use crate::controller::{run_pre, run_ok}
%raw
#[verifier::external_body] pub struct RunFut { t: u8 }
impl RunFut {
    /// drives the run on; every terminate command that arrived so far was passed on
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<Result<FinalReport, Error>>)
        requires old(w)@.lw.res is None,
            !old(w)@.lw.pending && (old(w)@.lw.told ==> old(w)@.lw.passed), //@ C04
        ensures final(w)@.lw == (LW { res: r, ..old(w)@.lw }), r is Some ==> run_ok(final(w)@, r->Some_0) { unimplemented!() }
}
#[verifier::external_body]
pub fn start_controller_fut<F: AsyncObjectiveFunction>(c: AlgoConfig, s: Spec, f: F, a: oneshot::Receiver<()>, d: Sender<DetailedReportItem>, n: Option<usize>, t: Option<f64>, g: Option<serde_json::Value>, w: &mut World) -> (r: RunFut)
    requires run_pre(old(w)@, c, s, n, t, g), !a@,
    ensures final(w)@ == old(w)@,
{ unimplemented!() }
%fn launch(a_spec, a_f, a_cfg, a_cmd, a_rep, a_n, a_target, a_guess)
%attr effects send
%attr asyncs start_controller
%attr #[verifier::exec_allows_no_decreases_clause]
    requires run_pre(old(vx_w)@, a_cfg, a_spec, a_n, a_target, a_guess), old(vx_w)@.lw == (LW { pending: old(vx_w)@.lw.pending, closed: old(vx_w)@.lw.closed, told: false, passed: false, res: None }),
    ensures final(vx_w)@.lw.res == Some(r) && run_ok(final(vx_w)@, r) || final(vx_w)@.lw.closed && r == Err::<FinalReport, Error>(Error::ClientHungUp),
%loop 0
    invariant vx_w@.lw.res is None,
    vx_w@.lw.told ==> vx_w@.lw.passed, //@ C04
    vx_w@.lw.told == (abort_sig_sender_holder is None), //@ C04
