%% One evaluation by a child process: C07 (nothing outlives it, nothing is killed early) and C16 (its protocol)
%mod world
%use crate::error::Error
%raw
/// what a child was started with
pub ghost struct Spawn { pub program: Seq<char>, pub args: Seq<Seq<char>>, pub pgid: int }
pub ghost struct PW {
    /// the per-evaluation time limit
    pub limit: Option<Duration>,
    /// the durations that have passed since the timers were started
    pub over: Set<Duration>,
    /// the abort signal was sent to this evaluation / its future was dropped before it completed
    pub aborted: bool,
    pub cancelled: bool,
    /// process groups that may have a living member / whose leader may not be reaped
    pub live: Set<int>,
    pub unreaped: Set<int>,
    /// the kernel refused to signal a group or to wait for its leader
    pub refused: bool,
    pub spawns: Seq<Spawn>,
    pub spawn_failed: Option<io::Error>,
    /// the child exited and its output was read to the end / reading it failed
    pub finished: Option<Output>,
    pub failed: Option<io::Error>,
}
#[verifier::external_body]
pub struct World { w: u8 }
impl View for World { type V = PW; uninterp spec fn view(&self) -> PW; }
/// time passes
pub open spec fn passes(a: PW, b: PW) -> bool { b == (PW { over: b.over, aborted: b.aborted, ..a }) && a.over.subset_of(b.over) && (a.aborted ==> b.aborted) }
/// the evaluation may be killed now
pub open spec fn may_kill(w: PW) -> bool {
    w.finished is Some || w.failed is Some || w.aborted || w.cancelled || (w.limit is Some && w.over.contains(w.limit->Some_0))
}
/// nothing that was not there before is left
pub open spec fn nothing_left(a: PW, b: PW) -> bool { b.refused || b.live.subset_of(a.live) && b.unreaped.subset_of(a.unreaped) }
#[verifier::external_body]
pub fn vx_rounds(w: &mut World) ensures passes(old(w)@, final(w)@) { unimplemented!() }
/// suspended for good: not while the evaluation must be ended
#[verifier::external_body]
pub fn vx_never(w: &mut World) -> !
    requires
        !old(w)@.aborted, //@ C07
        old(w)@.limit is Some ==> !old(w)@.over.contains(old(w)@.limit->Some_0), //@ C07
    ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_bool() -> bool { unimplemented!() }
/// the future may be dropped while it is suspended
#[verifier::external_body]
pub fn vx_cancelled(w: &mut World) -> (r: bool) ensures final(w)@ == (PW { cancelled: r || old(w)@.cancelled, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dropped<T>() -> T { unimplemented!() }

#[verifier::external_body] #[derive(PartialEq, Eq)] pub struct Duration { d: u8 }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}

// ---- the kernel
pub enum Errno { ESRCH, ECHILD, EPERM, EINTR, EINVAL, Other }
impl Pid {
    #[verifier::external_body] pub fn from_raw(p: i32) -> (r: Pid) ensures r@ == p { unimplemented!() }
}
pub mod signal {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[allow(non_camel_case_types)]
    pub enum Signal { SIGKILL, SIGTERM, SIGINT, SIGHUP, SIGQUIT, SIGSTOP, SIGCONT, SIGUSR1 }
    /// SIGKILL ends every member of the group; no member: ESRCH
    #[verifier::external_body]
    pub fn killpg(p: Pid, s: Signal, w: &mut World) -> (r: Result<(), Errno>)
        requires
            old(w)@.live.contains(p@) ==> may_kill(old(w)@), //@ C07
        ensures match r {
            Ok(_) => final(w)@ == (PW { live: if s is SIGKILL { old(w)@.live.remove(p@) } else { old(w)@.live }, ..old(w)@ }),
            Err(Errno::ESRCH) => final(w)@ == (PW { live: old(w)@.live.remove(p@), unreaped: old(w)@.unreaped.remove(p@), ..old(w)@ }),
            Err(_) => final(w)@ == (PW { refused: true, ..old(w)@ }),
        } { unimplemented!() }
}
pub use signal::Signal;
pub mod wait {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] pub struct WaitStatus { x: u8 }
    #[verifier::external_body] pub struct WaitPidFlag { x: u8 }
    #[verifier::external_body]
    pub fn waitpid(p: Pid, o: Option<WaitPidFlag>, w: &mut World) -> (r: Result<WaitStatus, Errno>)
        requires
            o is None,
        ensures match r {
            Ok(_) | Err(Errno::ECHILD) => final(w)@ == (PW { unreaped: old(w)@.unreaped.remove(p@), ..old(w)@ }),
            Err(_) => final(w)@ == (PW { refused: true, ..old(w)@ }),
        } { unimplemented!() }
}

// ---- children
pub struct Stdio { pub piped: bool }
impl Stdio {
    #[verifier::external_body] pub fn piped() -> (r: Stdio) ensures r.piped { unimplemented!() }
    #[verifier::external_body] pub fn null() -> (r: Stdio) ensures !r.piped { unimplemented!() }
    #[verifier::external_body] pub fn inherit() -> (r: Stdio) ensures !r.piped { unimplemented!() }
}
pub ghost struct Cmd { pub program: Seq<char>, pub args: Seq<Seq<char>>, pub out: bool, pub err: bool }
#[verifier::external_body] pub struct Command { x: u8 }
impl View for Command { type V = Cmd; uninterp spec fn view(&self) -> Cmd; }
pub trait OsTexts: Sized { spec fn texts(self) -> Seq<Seq<char>>; }
impl<'a> OsTexts for &'a Vec<OsString> { open spec fn texts(self) -> Seq<Seq<char>> { self@.map_values(|s: OsString| s@) } }
impl Command {
    #[verifier::external_body]
    pub fn new<S: OsText>(p: S) -> (r: Command) ensures r@ == (Cmd { program: p.text(), args: Seq::empty(), out: false, err: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn args<I: OsTexts>(&mut self, a: I) -> (r: &mut Command)
        ensures r@ == (Cmd { args: old(self)@.args + a.texts(), ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<S: OsText>(&mut self, a: S) -> (r: &mut Command)
        ensures r@ == (Cmd { args: old(self)@.args.push(a.text()), ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command)
        ensures r@ == (Cmd { out: s.piped, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command)
        ensures r@ == (Cmd { err: s.piped, ..old(self)@ }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin(&mut self, s: Stdio) -> (r: &mut Command)
        ensures r@ == old(self)@, *final(self) == *final(r) { unimplemented!() }
    /// the child leads a new process group
    #[verifier::external_body]
    pub fn group_spawn(&mut self, w: &mut World) -> (r: Result<AsyncGroupChild, io::Error>)
        ensures match r {
            Ok(c) => final(w)@ == (PW { live: old(w)@.live.insert(c@.pgid), unreaped: old(w)@.unreaped.insert(c@.pgid),
                    spawns: old(w)@.spawns.push(Spawn { program: old(self)@.program, args: old(self)@.args, pgid: c@.pgid }), ..old(w)@ })
                && !old(w)@.live.contains(c@.pgid) && 0 < c@.pgid <= 0x3fff_ffff && c@.out == old(self)@.out && c@.err == old(self)@.err,
            Err(e) => final(w)@ == (PW { spawn_failed: Some(e), ..old(w)@ }),
        } { unimplemented!() }
}
pub ghost struct Child { pub pgid: int, pub out: bool, pub err: bool }
#[verifier::external_body] pub struct AsyncGroupChild { x: u8 }
impl View for AsyncGroupChild { type V = Child; uninterp spec fn view(&self) -> Child; }
impl AsyncGroupChild {
    /// known as long as the child was not waited for
    #[verifier::external_body]
    pub fn id(&self) -> (r: Option<u32>) ensures r is Some && r->Some_0 == self@.pgid { unimplemented!() }
    /// the child has exited, its output was read to the end, and it was reaped; others of its group may live on
    #[verifier::external_body]
    pub fn wait_with_output(self, w: &mut World) -> (r: Result<Output, io::Error>)
        requires
            self@.out && self@.err, //@ C16
        ensures match r {
            Ok(o) => passes(PW { finished: Some(o), unreaped: old(w)@.unreaped.remove(self@.pgid), ..old(w)@ }, final(w)@),
            Err(e) => passes(PW { failed: Some(e), ..old(w)@ }, final(w)@),
        } { unimplemented!() }
}

// ---- futures
pub enum Either<A, B> { Left(A), Right(B) }
pub mod tokio { pub mod time {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::super::*;
    #[verifier::external_body]
    pub fn sleep(d: Duration) -> (r: Sleep) ensures r@ == d { unimplemented!() }
} }
pub mod futures { pub mod future {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::super::*;
    #[verifier::external_body]
    pub fn pending() -> Pending { unimplemented!() }
} }
#[verifier::external_body] pub struct Sleep { x: u8 }
impl View for Sleep { type V = Duration; uninterp spec fn view(&self) -> Duration; }
#[verifier::external_body] pub struct Pending { x: u8 }
impl Sleep {
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<()>)
        ensures final(w)@ == old(w)@, final(self)@ == old(self)@, r is Some == old(w)@.over.contains(old(self)@) { unimplemented!() }
}
impl Either<Sleep, Pending> {
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<()>)
        ensures final(w)@ == old(w)@, r is Some == match *old(self) { Either::Left(s) => old(w)@.over.contains(s@), Either::Right(_) => false } { unimplemented!() }
}
pub mod async_broadcast {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body] pub struct RecvError { c: u8 }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body] pub struct Recv { t: u8 }
    impl Receiver<()> {
        #[verifier::external_body]
        pub fn recv(&mut self) -> Recv { unimplemented!() }
    }
    impl Recv {
        /// ready once the signal was sent (or nobody can send it any more)
        #[verifier::external_body]
        pub fn vx_poll(&self, w: &mut World) -> (r: Option<Result<(), RecvError>>)
            ensures final(w)@ == old(w)@, r is Some == old(w)@.aborted { unimplemented!() }
    }
}

%mod error src/error.rs
%fn ProcOutputWithObjFuncArg::new(a_a, a_s, a_o)
    ensures r.obj_func_arg == a_a, r.seed == a_s, r.output == a_o,

%mod process src/process.rs
%use crate::world::*
%use crate::world::async_broadcast
%types ObjFuncProcessDef ChildProcGroupGuard ObjFuncChildResult
%expect ObjFuncChildResult #[serde(deny_unknown_fields)] struct ObjFuncChildResult { objFuncVal: Option<f64>, }
%raw
/// what a child printed, as a JSON document
pub ghost enum Doc { Obj(Seq<(Seq<char>, Item)>), Arr(Seq<Item>), Other }
pub ghost enum Item { Null, Num(f64), Other }
pub uninterp spec fn doc(b: Seq<u8>) -> Option<Doc>;
pub open spec fn opt_num(i: Item) -> Option<Option<f64>> { match i { Item::Null => Some(None), Item::Num(x) => Some(Some(x)), Item::Other => None } }
/// {"objFuncVal": x}, {"objFuncVal": null} or {}
pub open spec fn result_of(b: Seq<u8>) -> Option<Option<f64>> {
    match doc(b) {
        Some(Doc::Obj(es)) => if es.len() == 0 { Some(None) } else if es.len() == 1 && es[0].0 == "objFuncVal"@ { opt_num(es[0].1) } else { None },
        _ => None,
    }
}
impl serde_json::FromSlice for ObjFuncChildResult {
    // the derived implementation: an object with the known field only, or the fields in order as an array
    open spec fn reads(b: Seq<u8>) -> Option<Self> {
        match doc(b) {
            Some(Doc::Obj(es)) => match result_of(b) { Some(x) => Some(ObjFuncChildResult { objFuncVal: x }), None => None },
            Some(Doc::Arr(vs)) => if vs.len() == 1 { match opt_num(vs[0]) { Some(x) => Some(ObjFuncChildResult { objFuncVal: x }), None => None } } else { None },
            _ => None,
        }
    }
}
pub uninterp spec fn jmap_of(b: Seq<u8>) -> serde_json::Map<String, serde_json::Value>;
impl serde_json::FromSlice for serde_json::Map<String, serde_json::Value> {
    open spec fn reads(b: Seq<u8>) -> Option<Self> { if doc(b) is Some && doc(b)->Some_0 is Obj { Some(jmap_of(b)) } else { None } }
}
impl serde_json::FromSlice for serde_json::Value {
    uninterp spec fn reads(b: Seq<u8>) -> Option<Self>;
}
pub open spec fn about(d: ProcOutputWithObjFuncArg, arg: Seq<char>, seed: u64, o: Output) -> bool { d.obj_func_arg@ == arg && d.seed == seed && d.output == o }
/// the result of an evaluation whose child ended with output `o`
pub open spec fn decode(o: Output, arg: Seq<char>, seed: u64, r: Result<Option<f64>, Error>) -> bool {
    if o.status.succeeded() {
        match result_of(o.stdout@) { Some(x) => r == Ok::<_, Error>(x), None => r is Err && r->Err_0 is ObjFuncProcInvalidOutput && about(r->Err_0->ObjFuncProcInvalidOutput_0, arg, seed, o) }
    } else {
        r is Err && r->Err_0 is ObjFuncProcFailed && about(r->Err_0->ObjFuncProcFailed_0, arg, seed, o)
    }
}
/// .. of which the run only needs to know whether it failed
pub open spec fn judged(o: Output, r: Result<Option<f64>, Error>) -> bool {
    match result_of(o.stdout@) { Some(x) => if o.status.succeeded() { r == Ok::<_, Error>(x) } else { r is Err }, None => r is Err }
}
pub open spec fn child_post(c: Child, arg: Seq<char>, seed: u64, a: PW, b: PW, r: Result<Option<f64>, Error>) -> bool {
    match b.finished {
        Some(o) => passes(PW { finished: Some(o), unreaped: a.unreaped.remove(c.pgid), ..a }, b)
%if C16
            && decode(o, arg, seed, r)
%endif
%if C06
            && judged(o, r)
%endif
            ,
        None => b.failed is Some && passes(PW { failed: b.failed, ..a }, b) && r is Err,
    }
}
/// the suspended `get_child_result`: nothing of it happens before its last poll
#[verifier::external_body] pub struct ChildFut { x: u8 }
impl View for ChildFut { type V = (Child, Seq<char>, u64); uninterp spec fn view(&self) -> (Child, Seq<char>, u64); }
#[verifier::external_body]
pub fn get_child_result_fut(child: AsyncGroupChild, arg: &OsString, seed: u64, id: usize, w: &mut World) -> (r: ChildFut)
    requires
        child@.out && child@.err, //@ C16
    ensures final(w)@ == old(w)@, r@ == (child@, arg@, seed) { unimplemented!() }
impl ChildFut {
    #[verifier::external_body]
    pub fn vx_await(self, w: &mut World) -> (x: Result<Option<f64>, Error>)
        requires
            old(w)@.finished is None && old(w)@.failed is None,
            !old(w)@.aborted && !old(w)@.cancelled && (old(w)@.limit is Some ==> !old(w)@.over.contains(old(w)@.limit->Some_0)), //@ C07
        ensures child_post(self@.0, self@.1, self@.2, old(w)@, final(w)@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_poll(&mut self, w: &mut World) -> (r: Option<Result<Option<f64>, Error>>)
        requires old(w)@.finished is None && old(w)@.failed is None,
        ensures final(self)@ == old(self)@, match r { None => final(w)@ == old(w)@, Some(x) => child_post(old(self)@.0, old(self)@.1, old(self)@.2, old(w)@, final(w)@, x) } { unimplemented!() }
}
%fn kill_and_reap_child_proc_group(a_g)
%attr world
%attr effects killpg waitpid
    requires
        a_g is Some && old(vx_w)@.live.contains(a_g->Some_0@) ==> may_kill(old(vx_w)@), //@ C07
    ensures
        final(vx_w)@ == (PW { live: final(vx_w)@.live, unreaped: final(vx_w)@.unreaped, refused: final(vx_w)@.refused, ..old(vx_w)@ }),
        final(vx_w)@.live.subset_of(old(vx_w)@.live), final(vx_w)@.unreaped.subset_of(old(vx_w)@.unreaped), old(vx_w)@.refused ==> final(vx_w)@.refused,
        a_g is Some && !final(vx_w)@.refused ==> !final(vx_w)@.live.contains(a_g->Some_0@) && !final(vx_w)@.unreaped.contains(a_g->Some_0@), //@ C07
        r is Err ==> final(vx_w)@.refused, //@ C07
%fn ChildProcGroupGuard::drop() as vx_drop
%attr world
%attr effects kill_and_reap_child_proc_group
    requires
        old(self).pgid is Some && old(vx_w)@.live.contains(old(self).pgid->Some_0@) ==> may_kill(old(vx_w)@), //@ C07
    ensures
        final(vx_w)@ == (PW { live: final(vx_w)@.live, unreaped: final(vx_w)@.unreaped, refused: final(vx_w)@.refused, ..old(vx_w)@ }),
        final(vx_w)@.live.subset_of(old(vx_w)@.live), final(vx_w)@.unreaped.subset_of(old(vx_w)@.unreaped), old(vx_w)@.refused ==> final(vx_w)@.refused,
        old(self).pgid is Some && !final(vx_w)@.refused ==> !final(vx_w)@.live.contains(old(self).pgid->Some_0@) && !final(vx_w)@.unreaped.contains(old(self).pgid->Some_0@), //@ C07
%fn parse_child_result(a_b)
    ensures
%if C06 C16
        match r { Ok(x) => result_of(a_b@) == Some(x.objFuncVal), Err(_) => result_of(a_b@) is None },
%else
        true,
%endif
%fn get_child_result(a_c, a_a, a_s, a_i)
    requires
        a_c@.out && a_c@.err, //@ C16
        old(vx_w)@.finished is None && old(vx_w)@.failed is None,
    ensures
        child_post(a_c@, a_a@, a_s, old(vx_w)@, final(vx_w)@, r),
%fn ObjFuncProcessDef::evaluate(a_v, a_rx, a_s, a_i)
%attr drops
%attr effects group_spawn kill_and_reap_child_proc_group
    requires
        old(vx_w)@.limit == self.kill_obj_func_after, old(vx_w)@.finished is None, old(vx_w)@.failed is None, !old(vx_w)@.cancelled, !old(vx_w)@.refused, old(vx_w)@.spawn_failed is None,
    ensures
        nothing_left(old(vx_w)@, final(vx_w)@), //@ C07
        !final(vx_w)@.cancelled && final(vx_w)@.spawn_failed is None && final(vx_w)@.finished is None && final(vx_w)@.failed is None && !final(vx_w)@.refused ==> r == Ok::<Option<f64>, Error>(None) && may_kill(final(vx_w)@), //@ C07
%if C16
        match final(vx_w)@.spawn_failed {
            Some(e) => final(vx_w)@.spawns == old(vx_w)@.spawns && r == Err::<Option<f64>, Error>(Error::UnableToLaunchObjFuncProcess(e)),
            None => final(vx_w)@.spawns.len() == old(vx_w)@.spawns.len() + 1 && final(vx_w)@.spawns.drop_last() == old(vx_w)@.spawns
                && final(vx_w)@.spawns.last().program == self.program@
                && final(vx_w)@.spawns.last().args == self.args@.map_values(|s: OsString| s@).push(serde_json::json_text(a_v)).push(dec64(a_s)),
        },
        !final(vx_w)@.cancelled && final(vx_w)@.finished is Some ==> decode(final(vx_w)@.finished->Some_0, serde_json::json_text(a_v), a_s, r),
        !final(vx_w)@.cancelled && final(vx_w)@.failed is Some ==> r is Err,
%endif
%if C06
        final(vx_w)@.spawn_failed is Some ==> r is Err,
        !final(vx_w)@.cancelled && final(vx_w)@.finished is Some ==> judged(final(vx_w)@.finished->Some_0, r),
        !final(vx_w)@.cancelled && final(vx_w)@.failed is Some ==> r is Err,
%endif
