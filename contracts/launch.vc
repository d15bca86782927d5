%% The launch of a run by the library's synchronous entry points, and the detailed report: C03, C04, C05, C06, C08, C14, C16
%mod meta src/meta.rs
%types MetaParamsWrapper MetaParamsSource CrossoverParams MutationParams AlgoConfig
%raw
impl Shown for MetaParamsSource { uninterp spec fn shown(&self) -> Seq<char>; }
impl VxToString for MetaParamsSource { open spec fn vx_str(&self) -> Seq<char> { self.shown() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait AsyncObjectiveFunction: Sized {}
/// an objective function computed in the process
pub trait ObjectiveFunction: Sized {
    fn evaluate(&self, value: serde_json::Value, w: &mut crate::world::World) -> (r: Option<f64>)
        ensures final(w)@ == (crate::world::SW { calls: old(w)@.calls.push((value, r)), ..old(w)@ });
}

%mod message src/message.rs
%types Command

%mod result src/result.rs
%use crate::world::Duration
%types FinalReport BestSeen

%mod detailed_report src/detailed_report.rs
%use crate::world::Duration
%types DetailedReportItem
%raw
/// the header row
pub uninterp spec fn header() -> Seq<char>;
pub open spec fn num(x: Option<f64>) -> Seq<char> { match x { Some(v) => v.shown(), None => Seq::empty() } }
/// the record of one evaluation: ten columns; those of the meta parameters are empty for a given initial value
pub open spec fn row(i: DetailedReportItem) -> Seq<char> {
    let m = i.meta_params_used;
    let e = Seq::<char>::empty();
    Seq::<char>::empty() + i.individual_id.shown()
        + ";"@ + crate::world::secs(i.eval_time).shown()
        + ";"@ + (match m { Some(p) => p.source.shown(), None => e })
        + ";"@ + (match m { Some(p) => p.crossover_params.crossover_prob.shown(), None => e })
        + ";"@ + (match m { Some(p) => p.crossover_params.selection_pressure.shown(), None => e })
        + ";"@ + (match m { Some(p) => p.mutation_params.mutation_prob.shown(), None => e })
        + ";"@ + (match m { Some(p) => p.mutation_params.mutation_scale.shown(), None => e })
        + ";"@ + serde_json::json_text(i.input_val)
        + ";"@ + i.seed.shown()
        + ";"@ + num(i.obj_func_val)
        + "\n"@
}
%fn DetailedReportItem::get_csv_header_row() assume
    ensures r@ == header(),
%fn DetailedReportItem::to_csv_row
%attr texts
    ensures
        r@ =~= row(*self), //@ C14
%at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

%mod world
%use crate::error::Error
%use crate::result::FinalReport
%use crate::spec::Spec
%use crate::meta::{AlgoConfig, AsyncObjectiveFunction}
%use crate::termination::*
%use crate::detailed_report::{DetailedReportItem, header, row}
%use crate::message::Command
%use crate::sync_launch::DetailedReportingFileInfo
%raw
/// what is to be run
pub ghost struct Job { pub spec: Spec, pub cfg: AlgoConfig, pub crits: Seq<TerminationCriterion>, pub guess: Option<serde_json::Value>, pub in_process: bool, pub info: Option<DetailedReportingFileInfo> }
pub ghost struct SW {
    pub job: Job,
    pub files: Map<Seq<char>, Seq<u8>>,
    /// files written to since they were last flushed
    pub dirty: Set<Seq<char>>,
    /// an operation of the operating system failed
    pub failed: bool,
    /// the records the run has sent, how many were taken out of the channel; the run has ended
    pub items: Seq<DetailedReportItem>,
    pub got: nat,
    pub ended: bool,
    pub run: Option<Result<FinalReport, Error>>,
    /// the channels of the run
    pub cmd: Option<int>,
    pub rep: Option<int>,
    /// the run / the writer was driven on since the last suspension
    pub ran: bool,
    pub wrote: bool,
    pub started: bool,
    /// durations that have passed since the run was started
    pub over: Set<Duration>,
    /// a terminate command was sent to the run
    pub told: bool,
    /// an interrupt leads to a terminate command
    pub handler: bool,
    /// calls of an objective function computed in the process; the evaluation was told to abort
    pub calls: Seq<(serde_json::Value, Option<f64>)>,
    pub aborted: bool,
}
#[verifier::external_body]
pub struct World { w: u8 }
impl View for World { type V = SW; uninterp spec fn view(&self) -> SW; }
/// time passes: the run goes on
pub open spec fn passes(a: SW, b: SW) -> bool {
    &&& b == (SW { items: b.items, ended: b.ended, over: b.over, aborted: b.aborted, ..a })
    &&& a.items.len() <= b.items.len() && forall|k: int| 0 <= k < a.items.len() ==> #[trigger] b.items[k] == a.items[k]
    &&& a.ended ==> b.ended && b.items == a.items
    &&& a.over.subset_of(b.over) && (a.aborted ==> b.aborted)
}
#[verifier::external_body] #[derive(Debug, PartialEq, Eq)] pub struct Duration { d: u8 }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
pub uninterp spec fn secs(d: Duration) -> f64;
impl Duration { #[verifier::external_body] pub fn as_secs_f64(&self) -> (r: f64) ensures r == secs(*self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_any_bool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_rounds(w: &mut World)
    ensures final(w)@ == (SW { over: final(w)@.over, aborted: final(w)@.aborted, ran: false, wrote: false, ..old(w)@ }), old(w)@.over.subset_of(final(w)@.over), old(w)@.aborted ==> final(w)@.aborted { unimplemented!() }
/// suspended until something happens: the run and the writer are being driven, and a time limit that is over was passed on
#[verifier::external_body]
pub fn vx_never(w: &mut World) -> !
    requires
        old(w)@.rep is None ==> !old(w)@.aborted, //@ C04 C06
        old(w)@.ran, //@ C04 C14 C15
        old(w)@.rep is Some ==> old(w)@.run is None && old(w)@.wrote, //@ C04 C14 C15
        old(w)@.rep is Some && !old(w)@.told ==> limits(old(w)@.job.crits).len() == 1 ==> !old(w)@.over.contains(limits(old(w)@.job.crits)[0]), //@ C04
    ensures false { unimplemented!() }

// ---- files (tokio)
#[verifier::external_body] pub struct File { f: u8 }
impl View for File { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl File {
    #[verifier::external_body]
    pub fn create<P: OsText>(p: P, w: &mut World) -> (r: Result<File, io::Error>)
        ensures match r {
            Ok(f) => f@ == p.text() && passes(SW { files: old(w)@.files.insert(p.text(), seq![]), dirty: old(w)@.dirty.insert(p.text()), ..old(w)@ }, final(w)@),
            Err(_) => passes(SW { failed: true, files: final(w)@.files, ..old(w)@ }, final(w)@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all<'a>(&mut self, b: &'a [u8], w: &mut World) -> (r: Result<(), io::Error>)
        requires
            old(w)@.files.contains_key(old(self)@), //@ C14
        ensures final(self)@ == old(self)@, match r {
            Ok(_) => passes(SW { files: old(w)@.files.insert(old(self)@, old(w)@.files[old(self)@] + b@), dirty: old(w)@.dirty.insert(old(self)@), ..old(w)@ }, final(w)@),
            Err(_) => passes(SW { failed: true, files: final(w)@.files, ..old(w)@ }, final(w)@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: Result<(), io::Error>)
        ensures final(self)@ == old(self)@, match r {
            Ok(_) => passes(SW { dirty: old(w)@.dirty.remove(old(self)@), ..old(w)@ }, final(w)@),
            Err(_) => passes(SW { failed: true, files: final(w)@.files, ..old(w)@ }, final(w)@) } { unimplemented!() }
}
// ---- channels
pub mod mpsc {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct SendError { c: u8 }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
    impl<T> View for Receiver<T> { type V = int; uninterp spec fn view(&self) -> int; }
    impl<T> View for Sender<T> { type V = int; uninterp spec fn view(&self) -> int; }
    impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0@ == r.1@ { unimplemented!() }
    impl Sender<Command> {
        #[verifier::external_body]
        pub fn send(&mut self, c: Command, w: &mut World) -> (r: Result<(), SendError>)
            ensures final(self)@ == old(self)@, final(w)@ == (SW { told: old(w)@.told || r is Ok && old(w)@.cmd == Some(old(self)@), ..old(w)@ }),
                old(w)@.cmd == Some(old(self)@) && old(w)@.run is None ==> r is Ok { unimplemented!() }
    }
    impl Receiver<DetailedReportItem> {
        /// the next record, or none when the run has ended and all were taken
        #[verifier::external_body]
        pub fn next(&mut self, w: &mut World) -> (r: Option<DetailedReportItem>)
            requires old(w)@.got <= old(w)@.items.len(),
            ensures final(self)@ == old(self)@,
                passes(SW { got: final(w)@.got, ..old(w)@ }, final(w)@),
                match r {
                    Some(i) => old(w)@.got < final(w)@.items.len() && i == final(w)@.items[old(w)@.got as int] && final(w)@.got == old(w)@.got + 1,
                    None => final(w)@.ended && final(w)@.got == old(w)@.got == final(w)@.items.len(),
                } { unimplemented!() }
        /// takes the records to the end
        #[verifier::external_body]
        pub fn forward(self, d: sink::Drain, w: &mut World) -> (r: Result<(), sink::Infallible>)
            ensures r is Ok, passes(SW { got: final(w)@.got, ..old(w)@ }, final(w)@), final(w)@.ended && final(w)@.got == final(w)@.items.len() { unimplemented!() }
    }
    pub mod sink {
        #[allow(unused_imports)] use vstd::prelude::*;
        #[verifier::external_body] #[derive(Debug)] pub struct Infallible { c: u8 }
        #[verifier::external_body] pub struct Drain { c: u8 }
    }
}
pub mod async_broadcast {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct RecvError { c: u8 }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    impl Receiver<()> {
        #[verifier::external_body]
        pub fn vx_poll_recv(&mut self, w: &mut World) -> (r: Option<Result<(), RecvError>>)
            ensures final(w)@ == old(w)@, r is Some == old(w)@.aborted { unimplemented!() }
    }
}
pub mod futures {
    pub mod sink {
        #[allow(unused_imports)] use vstd::prelude::*;
        #[verifier::external_body] pub fn drain() -> super::super::mpsc::sink::Drain { unimplemented!() }
    }
    pub mod future {
        #[allow(unused_imports)] use vstd::prelude::*;
        use super::super::*;
        pub use super::super::Either;
        #[verifier::external_body] pub struct Pending { c: u8 }
        #[verifier::external_body] pub fn pending() -> Pending { unimplemented!() }
    }
}
// ---- timers
pub enum Either<A, B> { Left(A), Right(B) }
#[verifier::external_body] pub struct Delay { d: u8 }
pub ghost struct Timer { pub d: Duration, pub done: bool }
impl View for Delay { type V = Timer; uninterp spec fn view(&self) -> Timer; }
impl Delay {
    #[verifier::external_body] pub fn new(d: Duration) -> (r: Delay) ensures r@ == (Timer { d, done: false }) { unimplemented!() }
    #[verifier::external_body] pub fn fuse(self) -> (r: Delay) ensures r == self { unimplemented!() }
}
impl Either<Delay, futures::future::Pending> {
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<()>)
        ensures final(w)@ == old(w)@, match *old(self) {
            Either::Left(t) => (*final(self)) is Left && (*final(self))->Left_0@ == (Timer { done: t@.done || old(w)@.over.contains(t@.d), ..t@ }) && (r is Some == (!t@.done && old(w)@.over.contains(t@.d))),
            Either::Right(_) => (*final(self)) is Right && r is None,
        } { unimplemented!() }
}
// ---- interrupts
pub mod ctrlc {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn set_handler(w: &mut World) -> (r: Result<(), crate::ext::ctrlc::Error>)
        ensures final(w)@ == (SW { handler: old(w)@.handler || r is Ok, failed: old(w)@.failed || r is Err, ..old(w)@ }) { unimplemented!() }
}
/// the interrupt handler runs, while the run is in progress
#[verifier::external_body]
pub fn vx_handler_starts(w: &mut World) ensures final(w)@.run is None && !final(w)@.told && final(w)@.cmd == old(w)@.cmd { unimplemented!() }
/// .. and must have told the run: the rest of the program is as it was
#[verifier::external_body]
pub fn vx_handler_done(w: &mut World) requires
        old(w)@.told, //@ C04
    ensures false { unimplemented!() }
// ---- the runtime
pub ghost struct Rt { pub multi: bool, pub threads: int, pub enabled: bool }
pub mod runtime {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] pub struct Builder { d: u8 }
    #[verifier::external_body] pub struct Runtime { d: u8 }
    impl View for Builder { type V = Rt; uninterp spec fn view(&self) -> Rt; }
    impl View for Runtime { type V = Rt; uninterp spec fn view(&self) -> Rt; }
    impl Builder {
        #[verifier::external_body] pub fn new_multi_thread() -> (r: Builder) ensures r@ == (Rt { multi: true, threads: 0, enabled: false }) { unimplemented!() }
        #[verifier::external_body] pub fn new_current_thread() -> (r: Builder) ensures r@ == (Rt { multi: false, threads: 0, enabled: false }) { unimplemented!() }
        #[verifier::external_body] pub fn worker_threads(&mut self, n: usize) -> (r: &mut Builder) requires n > 0 ensures r@ == (Rt { threads: n as int, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body] pub fn enable_all(&mut self) -> (r: &mut Builder) ensures r@ == (Rt { enabled: true, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body] pub fn build(&mut self) -> (r: Result<Runtime, io::Error>) ensures r is Ok && r->Ok_0@ == old(self)@, *final(self) == *old(self) { unimplemented!() }
    }
    impl Runtime {
        /// evaluations computed in the process run in threads of their own, as many as may be in progress
        #[verifier::external_body]
        pub fn vx_block_on(&self, w: &mut World)
            requires self@.enabled,
                old(w)@.job.in_process ==> self@.multi && self@.threads >= old(w)@.job.cfg.num_concurrent, //@ C05
            ensures final(w)@ == old(w)@ { unimplemented!() }
    }
}
// ---- what the writer of the report has done when it ends
pub open spec fn is_min(s: Seq<DetailedReportItem>, k: int) -> bool {
    0 <= k < s.len() && s[k].obj_func_val is Some && forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).obj_func_val is Some ==> fle(s[k].obj_func_val->Some_0, s[j].obj_func_val->Some_0)
}
pub open spec fn some_val(s: Seq<DetailedReportItem>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).obj_func_val is Some }
pub open spec fn nums(s: Seq<DetailedReportItem>) -> bool { forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).obj_func_val is Some ==> isfin(s[j].obj_func_val->Some_0) }
pub open spec fn rows(s: Seq<DetailedReportItem>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { utf8(header()) } else { rows(s.drop_last()) + utf8(row(s.last())) } }
pub broadcast proof fn lemma_rows(s: Seq<DetailedReportItem>, i: DetailedReportItem) ensures #[trigger] rows(s.push(i)) == rows(s) + utf8(row(i))
{ assert(s.push(i).drop_last() =~= s); }
/// the best-seen file holds the parameters of a record with the least value
pub open spec fn best_file(w: SW, p: Seq<char>, s: Seq<DetailedReportItem>) -> bool {
    some_val(s) ==> w.files.contains_key(p) && !w.dirty.contains(p) && exists|k: int| #[trigger] is_min(s, k) && w.files[p] == utf8(serde_json::json_text(s[k].input_val))
}
pub open spec fn written(w: SW, i: DetailedReportingFileInfo, s: Seq<DetailedReportItem>) -> bool {
    i.detailed_report_file_path@ != i.best_seen_file_path@ && nums(s) ==> {
        let p = i.detailed_report_file_path@;
        w.files.contains_key(p) && w.files[p] == rows(s) && !w.dirty.contains(p) && best_file(w, i.best_seen_file_path@, s)
    }
}
pub open spec fn rep_done(w: SW, r: Result<(), Error>) -> bool {
    match r {
        Ok(_) => w.ended && w.got == w.items.len(),
        Err(_) => w.failed,
    }
}
pub open spec fn deref_info(i: Option<&DetailedReportingFileInfo>) -> Option<DetailedReportingFileInfo> { match i { Some(x) => Some(*x), None => None } }
pub open spec fn ready(w: SW) -> bool {
    w.run is None && !w.ended && w.got == 0 && w.cmd is None && w.rep is None && !w.told && !w.handler && !w.started && !w.failed && w.items.len() == 0 && !w.aborted
}
/// what the counts and the best of a report say of the records of its run
pub open spec fn matches(s: Seq<DetailedReportItem>, rep: FinalReport, ss: usize) -> bool {
    &&& rep.num_obj_func_eval_completed == vals(s) && rep.num_obj_func_eval_rejected == s.len() - vals(s)
    &&& ss == 1 ==> exists|k: int| #[trigger] is_min(s, k) && feq(s[k].obj_func_val->Some_0, rep.best_seen.obj_func_val)
}
pub open spec fn vals(s: Seq<DetailedReportItem>) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { vals(s.drop_last()) + if s.last().obj_func_val is Some { 1nat } else { 0 } } }
%mod async_launch src/async_launch.rs
%use crate::world::*
%use crate::world::mpsc::{Sender, Receiver}
%use crate::termination::*
%raw
#[verifier::external_body] pub struct RunFut { t: u8 }
impl RunFut {
    #[verifier::external_body] pub fn fuse(self) -> (r: RunFut) ensures r == self { unimplemented!() }
    /// drives the run on
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<Result<FinalReport, Error>>)
        requires old(w)@.rep is Some,
            signals(old(w)@.job.crits) > 0 ==> old(w)@.handler, //@ C04
        ensures
            final(w)@ == (SW { items: final(w)@.items, ended: final(w)@.ended, run: final(w)@.run, ran: true, started: true, ..old(w)@ }), passes(SW { run: final(w)@.run, ran: true, started: true, ..old(w)@ }, final(w)@),
            old(w)@.run is Some ==> r is None && final(w)@.run == old(w)@.run,
            old(w)@.run is None ==> final(w)@.run == r && final(w)@.ended == r is Some,
            r is Some && r->Some_0 is Ok ==> nums(final(w)@.items) && matches(final(w)@.items, r->Some_0->Ok_0, final(w)@.job.cfg.individual_sample_size),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn launch_fut<F: AsyncObjectiveFunction>(spec: Spec, f: F, c: AlgoConfig, cmd: Receiver<Command>, rep: Sender<DetailedReportItem>, n: Option<usize>, t: Option<f64>, g: Option<serde_json::Value>, w: &mut World) -> (r: RunFut)
    requires old(w)@.rep is None,
        spec == old(w)@.job.spec, //@ C01 C08 C16
        c.num_concurrent == old(w)@.job.cfg.num_concurrent, //@ C05 C16
        c.individual_sample_size == old(w)@.job.cfg.individual_sample_size, //@ C02 C08 C14 C16
        c == old(w)@.job.cfg, //@ C16
        ns(old(w)@.job.crits) == one(n), //@ C03 C05 C16
        targets(old(w)@.job.crits) == one(t), //@ C04 C16
        g == old(w)@.job.guess, //@ C08 C16
    ensures final(w)@ == (SW { cmd: Some(cmd@), rep: Some(rep@), ..old(w)@ }),
{ unimplemented!() }

%mod sync_launch src/sync_launch.rs
%use crate::world::*
%use crate::world::async_broadcast
%use crate::world::ctrlc
%use crate::world::mpsc::{Sender, Receiver}
%use crate::termination::*
%use std::sync::Arc
%types DetailedReportingFileInfo AsyncObjectiveFunctionImpl
%raw
/// the writer of the report, and what it is to read from
#[verifier::external_body] pub struct RepFut { t: u8 }
pub ghost struct Rep { pub recv: int, pub info: Option<DetailedReportingFileInfo>, pub done: bool }
impl View for RepFut { type V = Rep; uninterp spec fn view(&self) -> Rep; }
#[verifier::external_body]
pub fn handle_detailed_report_items_fut(info: Option<&DetailedReportingFileInfo>, recv: Receiver<DetailedReportItem>, w: &mut World) -> (r: RepFut)
    ensures r@ == (Rep { recv: recv@, info: deref_info(info), done: false }), final(w)@ == old(w)@ { unimplemented!() }
impl RepFut {
    #[verifier::external_body] pub fn fuse(self) -> (r: RepFut) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<Result<(), Error>>)
        requires
            Some(old(self)@.recv) == old(w)@.rep, //@ C14 C15
        ensures final(self)@ == (Rep { done: old(self)@.done || r is Some, ..old(self)@ }),
            final(w)@ == (SW { files: final(w)@.files, dirty: final(w)@.dirty, failed: final(w)@.failed, got: final(w)@.got, wrote: true, ..old(w)@ }), old(w)@.failed ==> final(w)@.failed,
            old(self)@.done ==> r is None && final(w)@ == (SW { wrote: true, ..old(w)@ }),
            r is None ==> final(w)@.failed == old(w)@.failed,
            r is Some ==> rep_done(final(w)@, r->Some_0) && (r->Some_0 is Ok && old(self)@.info is Some ==> written(final(w)@, old(self)@.info->Some_0, final(w)@.items)) { unimplemented!() }
    /// for ever, if the run is not driven on at the same time or the writer has ended already
    #[verifier::external_body]
    pub fn vx_await(self, w: &mut World) -> (r: Result<(), Error>)
        requires
            Some(self@.recv) == old(w)@.rep, !self@.done, old(w)@.ended, //@ C14 C15
        ensures
            final(w)@ == (SW { files: final(w)@.files, dirty: final(w)@.dirty, failed: final(w)@.failed, got: final(w)@.got, over: final(w)@.over, ..old(w)@ }), old(w)@.failed ==> final(w)@.failed,
            rep_done(final(w)@, r), r is Ok && self@.info is Some ==> written(final(w)@, self@.info->Some_0, final(w)@.items) { unimplemented!() }
}
/// the files, while the records are taken one after another
#[verifier::opaque]
pub open spec fn halfway(w: SW, i: DetailedReportingFileInfo, s: Seq<DetailedReportItem>, b: Option<DetailedReportItem>) -> bool {
    let bp = i.best_seen_file_path@;
    i.detailed_report_file_path@ != bp && nums(s) ==> {
        &&& w.files.contains_key(i.detailed_report_file_path@) && w.files[i.detailed_report_file_path@] == rows(s)
        &&& match b {
            None => !some_val(s),
            Some(x) => w.files.contains_key(bp) && !w.dirty.contains(bp) && w.files[bp] == utf8(serde_json::json_text(x.input_val))
                && exists|k: int| #[trigger] is_min(s, k) && s[k].obj_func_val == x.obj_func_val && s[k].input_val == x.input_val,
        }
    }
}
/// one more record
pub proof fn lemma_half_step(a: SW, b: SW, i: DetailedReportingFileInfo, s: Seq<DetailedReportItem>, x: DetailedReportItem, b0: Option<DetailedReportItem>, b1: Option<DetailedReportItem>)
    requires halfway(a, i, s, b0),
        i.detailed_report_file_path@ != i.best_seen_file_path@ ==> b.files.contains_key(i.detailed_report_file_path@) && b.files[i.detailed_report_file_path@] == a.files[i.detailed_report_file_path@] + utf8(crate::detailed_report::row(x)),
        b1 == b0 && (x.obj_func_val is None || b0 is Some && b0->Some_0.obj_func_val is Some && !flt(x.obj_func_val->Some_0, b0->Some_0.obj_func_val->Some_0))
                && (i.detailed_report_file_path@ != i.best_seen_file_path@ && b0 is Some ==> a.files.contains_key(i.best_seen_file_path@) ==> b.files.contains_key(i.best_seen_file_path@) && b.files[i.best_seen_file_path@] == a.files[i.best_seen_file_path@]
                    && (b.dirty.contains(i.best_seen_file_path@) ==> a.dirty.contains(i.best_seen_file_path@)))
            || b1 is Some && b1->Some_0.obj_func_val == x.obj_func_val && b1->Some_0.input_val == x.input_val && x.obj_func_val is Some
                && (b0 is Some ==> b0->Some_0.obj_func_val is Some && (flt(x.obj_func_val->Some_0, b0->Some_0.obj_func_val->Some_0) || fle(x.obj_func_val->Some_0, b0->Some_0.obj_func_val->Some_0)))
                && b.files.contains_key(i.best_seen_file_path@) && b.files[i.best_seen_file_path@] == utf8(serde_json::json_text(x.input_val)) && !b.dirty.contains(i.best_seen_file_path@),
    ensures halfway(b, i, s.push(x), b1)
{
    reveal(halfway);
    lemma_step(s, x);
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    if i.detailed_report_file_path@ != i.best_seen_file_path@ && nums(t) {
        if b0 is Some {
            let k = choose|k: int| #[trigger] is_min(s, k) && s[k].obj_func_val == b0->Some_0.obj_func_val && s[k].input_val == b0->Some_0.input_val;
            assert(is_min(s, k));
            assert(s[k].obj_func_val is Some && isfin(s[k].obj_func_val->Some_0));
            if b1 == b0 && x.obj_func_val is None { assert(is_min(t, k)); }
        }
    }
}
pub proof fn lemma_step(s: Seq<DetailedReportItem>, x: DetailedReportItem)
    ensures rows(s.push(x)) == rows(s) + utf8(crate::detailed_report::row(x)),
        nums(s.push(x)) ==> nums(s) && (x.obj_func_val is Some ==> isfin(x.obj_func_val->Some_0)),
        some_val(s.push(x)) == (some_val(s) || x.obj_func_val is Some),
        !some_val(s) && x.obj_func_val is Some && nums(s.push(x)) ==> is_min(s.push(x), s.len() as int),
        nums(s.push(x)) ==> forall|k: int| #[trigger] is_min(s, k) ==> {
            &&& x.obj_func_val is None || fle(s[k].obj_func_val->Some_0, x.obj_func_val->Some_0) ==> is_min(s.push(x), k) && s.push(x)[k] == s[k]
            &&& x.obj_func_val is Some && fle(x.obj_func_val->Some_0, s[k].obj_func_val->Some_0) ==> is_min(s.push(x), s.len() as int)
        },
{
    let t = s.push(x);
    lemma_rows(s, x);
    assert(t[s.len() as int] == x);
    assert forall|j: int| 0 <= j < s.len() implies t[j] == s[j] by {}
    if nums(t) {
        assert forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).obj_func_val is Some implies isfin(s[j].obj_func_val->Some_0) by { assert(t[j] == s[j]); }
    }
    if some_val(s) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).obj_func_val is Some; assert(t[j].obj_func_val is Some); }
    if some_val(t) && x.obj_func_val is None { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).obj_func_val is Some; assert(s[j].obj_func_val is Some); }
    if !some_val(s) && x.obj_func_val is Some && nums(t) {
        assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).obj_func_val is Some implies fle(x.obj_func_val->Some_0, t[j].obj_func_val->Some_0) by { if j < s.len() { assert(s[j].obj_func_val is Some); } }
    }
    if nums(t) {
        assert forall|k: int| #[trigger] is_min(s, k) implies {
            &&& x.obj_func_val is None || fle(s[k].obj_func_val->Some_0, x.obj_func_val->Some_0) ==> is_min(t, k) && t[k] == s[k]
            &&& x.obj_func_val is Some && fle(x.obj_func_val->Some_0, s[k].obj_func_val->Some_0) ==> is_min(t, s.len() as int)
        } by {
            if x.obj_func_val is Some && fle(x.obj_func_val->Some_0, s[k].obj_func_val->Some_0) {
                assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).obj_func_val is Some implies fle(x.obj_func_val->Some_0, t[j].obj_func_val->Some_0) by { if j < s.len() { assert(s[j].obj_func_val is Some); } }
            }
            if x.obj_func_val is None || fle(s[k].obj_func_val->Some_0, x.obj_func_val->Some_0) {
                assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).obj_func_val is Some implies fle(t[k].obj_func_val->Some_0, t[j].obj_func_val->Some_0) by { if j < s.len() { assert(s[j].obj_func_val is Some); } }
            }
        }
    }
}
/// the timer runs for the time limit asked for, until the run was told
pub open spec fn limit_kept(w: SW, t: Either<Delay, futures::future::Pending>) -> bool {
    limits(w.job.crits).len() == 1 ==> w.told || t is Left && t->Left_0@ == (Timer { d: limits(w.job.crits)[0], done: false })
}
%fn write_best_seen_file(a_v, a_i)
    ensures passes(SW { files: final(vx_w)@.files, dirty: final(vx_w)@.dirty, failed: final(vx_w)@.failed, ..old(vx_w)@ }, final(vx_w)@), old(vx_w)@.failed ==> final(vx_w)@.failed,
        r is Ok && final(vx_w)@.failed == old(vx_w)@.failed || r is Err && final(vx_w)@.failed, //@ C06 C14 C15 C16
        r is Ok ==> final(vx_w)@.files == old(vx_w)@.files.insert(a_i.best_seen_file_path@, utf8(serde_json::json_text(*a_v))) && final(vx_w)@.dirty == old(vx_w)@.dirty.remove(a_i.best_seen_file_path@), //@ C14
%fn handle_detailed_report_items(a_i, a_r)
%attr #[verifier::exec_allows_no_decreases_clause]
    requires old(vx_w)@.got == 0,
    ensures passes(SW { files: final(vx_w)@.files, dirty: final(vx_w)@.dirty, failed: final(vx_w)@.failed, got: final(vx_w)@.got, ..old(vx_w)@ }, final(vx_w)@), old(vx_w)@.failed ==> final(vx_w)@.failed,
        rep_done(final(vx_w)@, r), //@ C04 C06 C14 C15 C16
%if C14
        r is Ok && a_i is Some ==> written(final(vx_w)@, *a_i->Some_0, final(vx_w)@.items), //@ C14
%endif
%at beforeloop 0
    let ghost mut g = Seq::<DetailedReportItem>::empty();
    proof { assert(g =~= vx_w@.items.take(vx_w@.got as int)); reveal(halfway); }
%loop 0
    invariant passes(SW { files: vx_w@.files, dirty: vx_w@.dirty, failed: vx_w@.failed, got: vx_w@.got, ..old(vx_w)@ }, vx_w@), vx_w@.failed == old(vx_w)@.failed,
    vx_w@.got <= vx_w@.items.len(), a_i is Some, detailed_report_file@ == a_i->Some_0.detailed_report_file_path@,
    vx_w@.files.contains_key(detailed_report_file@), //@ C14
    best_seen is Some ==> best_seen->Some_0.obj_func_val is Some, //@ C14 C15
    g == vx_w@.items.take(vx_w@.got as int),
%if C14
    halfway(vx_w@, *a_i->Some_0, g, best_seen), //@ C14
%endif
%at loopstart 0
    let ghost (s, b0, w0) = (g, best_seen, vx_w@);
    let ghost x = vx_w@.items[vx_w@.got - 1];
    proof { g = g.push(x); assert(g =~= vx_w@.items.take(vx_w@.got as int)); }
%at loopend 0
    proof {
        assert(g =~= vx_w@.items.take(vx_w@.got as int));
%if C14
        lemma_half_step(w0, vx_w@, *a_i->Some_0, s, x, b0, best_seen);
%endif
    }
%at afterloop 0
    proof { assert(vx_w@.items.take(vx_w@.got as int) =~= vx_w@.items); assert(g =~= vx_w@.items); }
%at end
    proof {
%if C14
    if a_i is Some { reveal(halfway); assert(written(vx_w@, *a_i->Some_0, vx_w@.items)); }
%endif
    assert(vx_w@.ended); assert(vx_w@.got == vx_w@.items.len()); }
%fn launch_with_async_obj_func(a_s, a_f, a_c, a_t, a_g, a_p, a_i)
%attr world
%attr effects send set_handler block_on
%attr asyncs launch handle_detailed_report_items
%attr #[verifier::exec_allows_no_decreases_clause]
    requires
        ready(old(vx_w)@), a_c.num_concurrent > 0,
        old(vx_w)@.job == (Job { spec: a_s, cfg: a_c, crits: a_t.yields(), guess: a_g, in_process: a_p, info: deref_info(a_i) }),
    ensures
        final(vx_w)@.job == old(vx_w)@.job,
        !clear(old(vx_w)@.job.crits) ==> r is Err && !final(vx_w)@.started, //@ C16
        clear(old(vx_w)@.job.crits) ==> final(vx_w)@.run is Some || final(vx_w)@.failed, //@ C16
        final(vx_w)@.run is Some ==> r == final(vx_w)@.run->Some_0 || r is Err && final(vx_w)@.failed, //@ C02 C03 C04 C06 C14 C15 C16
        final(vx_w)@.run is None ==> r is Err && (final(vx_w)@.failed || !final(vx_w)@.started), //@ C02 C03 C04 C06 C14 C15 C16
        r is Ok ==> matches(final(vx_w)@.items, r->Ok_0, old(vx_w)@.job.cfg.individual_sample_size), //@ C14
%if C14
        r is Ok && a_i is Some ==> written(final(vx_w)@, *a_i->Some_0, final(vx_w)@.items), //@ C14
%endif
%loop 0
    invariant vx_w@ == (SW { files: vx_w@.files, dirty: vx_w@.dirty, failed: vx_w@.failed, items: vx_w@.items, got: vx_w@.got, cmd: Some(cmd_sender@), rep: Some(detailed_reporting_fut@.recv), ran: vx_w@.ran, wrote: vx_w@.wrote,
        started: vx_w@.started, over: vx_w@.over, told: vx_w@.told, handler: vx_w@.handler, aborted: vx_w@.aborted, ..old(vx_w)@ }),
    !vx_w@.failed, !detailed_reporting_fut@.done, //@ C04 C06 C14 C15 C16
    detailed_reporting_fut@.info == deref_info(a_i), //@ C14
    limit_kept(vx_w@, timeout_fut), //@ C04
    signals(old(vx_w)@.job.crits) > 0 ==> vx_w@.handler, //@ C04


%fn AsyncObjectiveFunctionImpl::wrap(a_f)
    ensures *r.obj_func == a_f,
%raw
impl<F: ObjectiveFunction> AsyncObjectiveFunction for AsyncObjectiveFunctionImpl<F> {}
/// a task of its own
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct JoinHandle<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct JoinError { e: u8 }
#[verifier::external_body] pub struct Panic { e: u8 }
impl<T> View for JoinHandle<T> { type V = T; uninterp spec fn view(&self) -> T; }
impl<T> JoinHandle<T> {
    /// what it has computed, or that it panicked (nothing cancels it)
    #[verifier::external_body]
    pub fn vx_poll(&self, w: &mut World) -> (r: Option<Result<T, JoinError>>)
        ensures final(w)@ == (SW { ran: true, ..old(w)@ }), r is Some && r->Some_0 is Ok ==> r->Some_0->Ok_0 == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_await(self, w: &mut World) -> (r: Result<T, JoinError>)
        ensures r is Ok ==> r->Ok_0 == self@,
            final(w)@ == (SW { aborted: final(w)@.aborted, over: final(w)@.over, ..old(w)@ }), old(w)@.aborted ==> final(w)@.aborted { unimplemented!() }
}
impl JoinError {
    #[verifier::external_body] pub fn is_panic(&self) -> (r: bool) ensures r { unimplemented!() }
    #[verifier::external_body] pub fn into_panic(self) -> (r: Panic) { unimplemented!() }
}
pub mod panic {
    #[allow(unused_imports)] use vstd::prelude::*;
    /// goes on as a panic of the run
    #[verifier::external_body] pub fn resume_unwind(p: super::Panic) -> ! ensures false { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_spawn<T>(t: T) -> (r: JoinHandle<T>) ensures r@ == t { unimplemented!() }
%fn AsyncObjectiveFunctionImpl::evaluate(a_v, a_rx, a_s, a_i)
%attr effects spawn evaluate
    requires old(vx_w)@.rep is None,
    ensures
%if C01 C02 C14
        match r {
            Ok(Some(v)) => final(vx_w)@.calls == old(vx_w)@.calls.push((a_v, Some(v))),
            Ok(None) => final(vx_w)@.aborted || final(vx_w)@.calls == old(vx_w)@.calls.push((a_v, None)),
            Err(_) => false,
        },
%else
        true,
%endif
%fn launch(a_s, a_f, a_c, a_t, a_g, a_p, a_i)
%attr world
%attr effects launch_with_async_obj_func
    requires
        ready(old(vx_w)@), a_c.num_concurrent > 0,
        old(vx_w)@.job == (Job { spec: a_s, cfg: a_c, crits: a_t.yields(), guess: a_g, in_process: a_p, info: deref_info(a_i) }),
    ensures
        final(vx_w)@.job == old(vx_w)@.job,
        !clear(old(vx_w)@.job.crits) ==> r is Err && !final(vx_w)@.started, //@ C16
        clear(old(vx_w)@.job.crits) ==> final(vx_w)@.run is Some || final(vx_w)@.failed, //@ C16
        final(vx_w)@.run is Some ==> r == final(vx_w)@.run->Some_0 || r is Err && final(vx_w)@.failed, //@ C02 C03 C04 C06 C14 C15 C16
        final(vx_w)@.run is None ==> r is Err && (final(vx_w)@.failed || !final(vx_w)@.started), //@ C02 C03 C04 C06 C14 C15 C16
        r is Ok ==> matches(final(vx_w)@.items, r->Ok_0, old(vx_w)@.job.cfg.individual_sample_size), //@ C14
%if C14
        r is Ok && a_i is Some ==> written(final(vx_w)@, *a_i->Some_0, final(vx_w)@.items), //@ C14
%endif
