%% The command-line tool: C16 (validation before any evaluation, output directory, the one line printed)
%mod meta src/meta.rs
%types AlgoConfig AlgoConfigBuilder
%fn AlgoConfigBuilder::individual_sample_size(a_n)
    ensures *r == (AlgoConfigBuilder { individual_sample_size: Some(a_n), ..*old(self) }), *final(self) == *final(r),
%fn AlgoConfigBuilder::num_concurrent(a_n)
    ensures *r == (AlgoConfigBuilder { num_concurrent: Some(a_n), ..*old(self) }), *final(self) == *final(r),
%fn AlgoConfigBuilder::new
    ensures r.individual_sample_size is None && r.num_concurrent is None,
%fn AlgoConfigBuilder::build
    ensures
        match r {
            Ok(c) => cfg_of(old(self).individual_sample_size, old(self).num_concurrent, c),
            Err(_) => old(self).individual_sample_size == Some(0usize) || old(self).num_concurrent == Some(0usize),
        },
%raw
/// the configuration asked for: positive, one by default
pub open spec fn cfg_of(ss: Option<usize>, nc: Option<usize>, c: AlgoConfig) -> bool {
    c.individual_sample_size == (if ss is Some { ss->Some_0 } else { 1 }) && c.num_concurrent == (if nc is Some { nc->Some_0 } else { 1 })
        && c.individual_sample_size > 0 && c.num_concurrent > 0
}

%mod result src/result.rs
%use crate::world::Duration
%types FinalReport BestSeen
%raw
impl Shown for FinalReport { uninterp spec fn shown(&self) -> Seq<char>; }
impl VxToString for FinalReport { open spec fn vx_str(&self) -> Seq<char> { self.shown() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

%mod process src/process.rs
%use crate::world::Duration
%types ObjFuncProcessDef
%fn ObjFuncProcessDef::new(a_p, a_a, a_k)
    ensures r.program == a_p, r.args == a_a, r.kill_obj_func_after == a_k,

%mod sync_launch src/sync_launch.rs
%use crate::world::*
%use crate::process::ObjFuncProcessDef
%types DetailedReportingFileInfo
%raw
/// the run: started once, with what the command line asked for
#[verifier::external_body]
pub fn launch_with_async_obj_func(spec: Spec, obj_func: ObjFuncProcessDef, algo_config: AlgoConfig, crits: Vec<TerminationCriterion>, guess: Option<serde_json::Value>, in_process: bool,
    info: Option<&DetailedReportingFileInfo>, w: &mut World) -> (r: Result<FinalReport, Error>)
    requires launch_ok(old(w)@, spec, obj_func, algo_config, crits@, guess, in_process, info),
    ensures final(w)@ == (CW { res: Some(r), ..old(w)@ })
{ unimplemented!() }

%mod world
%use crate::error::Error
%use crate::result::FinalReport
%use crate::spec::Spec
%use crate::meta::{AlgoConfig, cfg_of}
%use crate::termination::{TerminationCriterion, says}
%use crate::process::ObjFuncProcessDef
%use crate::sync_launch::DetailedReportingFileInfo
%use crate::cli::Args
%raw
// What the tool was asked for, and what it did.
pub ghost struct CW {
    pub args: Option<Args>,
    /// texts of files read
    pub read: Map<Seq<char>, Seq<char>>,
    /// directories found not to exist, or removed / created
    pub free: Set<Seq<char>>,
    pub made: Set<Seq<char>>,
    pub files: Map<Seq<char>, Seq<u8>>,
    /// a file operation failed
    pub io_failed: bool,
    /// the lines printed
    pub out: Seq<Seq<char>>,
    /// the result of the run
    pub res: Option<Result<FinalReport, Error>>,
}
#[verifier::external_body]
pub struct World { w: u8 }
impl View for World { type V = CW; uninterp spec fn view(&self) -> CW; }
pub mod anyhow { #[allow(unused_imports)] use vstd::prelude::*; #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 } }
pub type AResult<T, E = anyhow::Error> = core::result::Result<T, E>;
#[verifier::external_body]
pub fn vx_anyhow_context<E, C>(e: E, c: C) -> anyhow::Error { unimplemented!() }
#[verifier::external_body] #[derive(Debug, PartialEq, Eq)] pub struct Duration { d: u8 }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
/// the duration a text denotes
pub uninterp spec fn dur(s: Seq<char>) -> Option<Duration>;
#[verifier::external_body] #[derive(Debug)] pub struct DurationError { d: u8 }
#[verifier::external_body]
pub fn parse(s: &str) -> (r: Result<Duration, DurationError>) ensures match r { Ok(d) => dur(s@) == Some(d), Err(_) => dur(s@) is None } { unimplemented!() }
/// the parameter space a document describes
pub uninterp spec fn space(s: Seq<char>) -> Option<Spec>;
pub mod spec_util {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn from_yaml_str(s: &str) -> (r: Result<Spec, Error>) ensures match r { Ok(x) => space(s@) == Some(x), Err(_) => space(s@) is None } { unimplemented!() }
}
// ---- files
pub mod fs {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn read_to_string<P: OsText>(p: P, w: &mut World) -> (r: Result<String, io::Error>)
        ensures match r { Ok(s) => final(w)@ == (CW { read: old(w)@.read.insert(p.text(), s@), ..old(w)@ }), Err(_) => final(w)@ == (CW { io_failed: true, ..old(w)@ }) } { unimplemented!() }
    /// only a file in an output directory of our own is written
    #[verifier::external_body]
    pub fn write<P: OsText, C: ByteText>(p: P, c: C, w: &mut World) -> (r: Result<(), io::Error>)
        requires in_own_dir(old(w)@, p.text()),
        ensures match r { Ok(_) => final(w)@ == (CW { files: old(w)@.files.insert(p.text(), c.bytes()), ..old(w)@ }), Err(_) => final(w)@ == (CW { io_failed: true, ..old(w)@ }) } { unimplemented!() }
    /// only the output directory is removed, and only when that was asked for
    #[verifier::external_body]
    pub fn remove_dir_all<P: OsText>(p: P, w: &mut World) -> (r: Result<(), io::Error>)
        requires old(w)@.args is Some, old(w)@.args->Some_0.force, is_out_dir(old(w)@, p.text()), old(w)@.res is None,
        ensures match r { Ok(_) => final(w)@ == (CW { free: old(w)@.free.insert(p.text()), ..old(w)@ }), Err(_) => final(w)@ == (CW { io_failed: true, ..old(w)@ }) } { unimplemented!() }
    /// only where there is no directory yet
    #[verifier::external_body]
    pub fn create_dir_all<P: OsText>(p: P, w: &mut World) -> (r: Result<(), io::Error>)
        requires is_out_dir(old(w)@, p.text()), old(w)@.free.contains(p.text()),
        ensures match r { Ok(_) => final(w)@ == (CW { made: old(w)@.made.insert(p.text()), ..old(w)@ }), Err(_) => final(w)@ == (CW { io_failed: true, ..old(w)@ }) } { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir<P: OsText>(p: P, w: &mut World) -> (r: Result<(), io::Error>)
        requires is_out_dir(old(w)@, p.text()),
        ensures match r { Ok(_) => final(w)@ == (CW { free: old(w)@.free.insert(p.text()), made: old(w)@.made.insert(p.text()), ..old(w)@ }), Err(_) => final(w)@ == (CW { io_failed: true, ..old(w)@ }) } { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn try_exists(&self, w: &mut World) -> (r: Result<bool, io::Error>)
        ensures match r {
            Ok(true) => final(w)@ == old(w)@,
            Ok(false) => final(w)@ == (CW { free: old(w)@.free.insert(self@), ..old(w)@ }),
            Err(_) => final(w)@ == (CW { io_failed: true, ..old(w)@ }),
        } { unimplemented!() }
    /// false also when that could not be found out
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) { unimplemented!() }
}
pub open spec fn is_out_dir(w: CW, p: Seq<char>) -> bool { w.args is Some && w.args->Some_0.out_dir is Some && w.args->Some_0.out_dir->Some_0@ == p }
pub open spec fn has_dir(w: CW) -> bool { w.args is Some && w.args->Some_0.out_dir is Some }
pub open spec fn dir(w: CW) -> Seq<char> { w.args->Some_0.out_dir->Some_0@ }
pub open spec fn in_own_dir(w: CW, p: Seq<char>) -> bool {
    has_dir(w) && w.made.contains(dir(w)) && exists|n: Seq<char>| p == #[trigger] joined(dir(w), n) && plain(n)
}
#[verifier::external_body]
pub fn vx_println<T: Shown + ?Sized>(x: &T, w: &mut World)
    requires
        // the one line: the best seen parameters of a run that succeeded
        old(w)@.out.len() == 0, old(w)@.res is Some, old(w)@.res->Some_0 is Ok, x.shown() == serde_json::json_text(old(w)@.res->Some_0->Ok_0.best_seen.value),
    ensures final(w)@ == (CW { out: old(w)@.out.push(x.shown()), ..old(w)@ }) { unimplemented!() }
/// something else is printed
#[verifier::external_body]
pub fn vx_print_other(w: &mut World)
    requires false,
{ unimplemented!() }
pub open spec fn asked(o: Option<String>) -> Option<Duration> { match o { Some(s) => dur(s@), None => None } }
pub open spec fn launch_ok(w: CW, spec: Spec, d: ObjFuncProcessDef, c: AlgoConfig, s: Seq<TerminationCriterion>, guess: Option<serde_json::Value>, in_process: bool, info: Option<&DetailedReportingFileInfo>) -> bool {
    &&& w.res is None && w.args is Some && !in_process
    &&& ({
        let a = w.args->Some_0;
        &&& w.read.contains_key(a.spec_file@) && space(w.read[a.spec_file@]) == Some(spec)
        &&& d.program@ == a.obj_func_program@ && d.args@ == a.obj_func_program_args@ && d.kill_obj_func_after == asked(a.kill_obj_func_after)
        &&& (a.kill_obj_func_after is Some ==> asked(a.kill_obj_func_after) is Some) && (a.terminate_after is Some ==> asked(a.terminate_after) is Some)
        &&& cfg_of(a.sample_size, a.num_concurrent, c)
        &&& says(s, a.max_obj_func_eval, a.target_obj_func_val, asked(a.terminate_after), !a.no_signal_result)
        &&& match a.initial_guess { Some(t) => guess is Some && serde_json::parsed(t@) == guess, None => guess is None }
        &&& match a.out_dir {
            Some(o) => w.made.contains(o@) && info is Some && info->Some_0.detailed_report_file_path@ == joined(o@, "detailed_report.csv"@) && info->Some_0.best_seen_file_path@ == joined(o@, "best_seen.json"@),
            None => info is None,
        }
    })
}
/// what only reading the command line and files leaves as it was
pub open spec fn quiet(a: CW, b: CW) -> bool { b.args == a.args && b.out == a.out && b.res == a.res && b.made == a.made && b.files == a.files && (a.io_failed ==> b.io_failed) }

%mod cli src/bin/cambrian.rs
%use crate::world::*
%use crate::world::AResult as Result
%use crate::world::fs
%use crate::world::spec_util
%use crate::meta::cfg_of
%use crate::termination::{says, one}
%use broadcast crate::termination::lemma_crit_push
%types Args DiagnosticDumpFileInfo
%raw
impl Args {
    /// clap: the options given
    #[verifier::external_body]
    pub fn parse(w: &mut World) -> (r: Args)
        requires old(w)@.args is None,
        ensures final(w)@ == (CW { args: Some(r), ..old(w)@ }) { unimplemented!() }
}
pub open spec fn dumps(i: DiagnosticDumpFileInfo, d: Seq<char>) -> bool {
    i.failed_obj_func_arg_file_path@ == joined(d, "failed_obj_func_arg"@) && i.failed_obj_func_stdout_file_path@ == joined(d, "failed_obj_func_stdout"@) && i.failed_obj_func_stderr_file_path@ == joined(d, "failed_obj_func_stderr"@)
}
pub open spec fn failing(r: Result<FinalReport, Error>) -> Option<ProcOutputWithObjFuncArg> {
    match r { Err(Error::ObjFuncProcFailed(p)) => Some(p), Err(Error::ObjFuncProcInvalidOutput(p)) => Some(p), _ => None }
}
/// the failing arguments and output are in files
pub open spec fn dumped(w: CW, d: Seq<char>, p: ProcOutputWithObjFuncArg) -> bool {
    &&& w.files.contains_key(joined(d, "failed_obj_func_arg"@))
    &&& w.files.contains_key(joined(d, "failed_obj_func_stdout"@)) && w.files[joined(d, "failed_obj_func_stdout"@)] == p.output.stdout@
    &&& w.files.contains_key(joined(d, "failed_obj_func_stderr"@)) && w.files[joined(d, "failed_obj_func_stderr"@)] == p.output.stderr@
}
proof fn lemma_names()
    ensures plain("failed_obj_func_arg"@), plain("failed_obj_func_stdout"@), plain("failed_obj_func_stderr"@), plain("summary_report.txt"@),
        "failed_obj_func_arg"@ != "failed_obj_func_stdout"@, "failed_obj_func_arg"@ != "failed_obj_func_stderr"@, "failed_obj_func_stdout"@ != "failed_obj_func_stderr"@,
{
    reveal_strlit("failed_obj_func_arg"); reveal_strlit("failed_obj_func_stdout"); reveal_strlit("failed_obj_func_stderr"); reveal_strlit("summary_report.txt");
    assert("failed_obj_func_stdout"@[19] != "failed_obj_func_stderr"@[19]);
}
%fn init_logger(a_a) assume
%fn load_spec(a_a)
%attr world
%attr effects read_to_string
    ensures quiet(old(vx_w)@, final(vx_w)@) && final(vx_w)@.free == old(vx_w)@.free,
        r is Ok ==> final(vx_w)@.read.contains_key(a_a.spec_file@) && space(final(vx_w)@.read[a_a.spec_file@]) == Some(r->Ok_0),
%fn make_algo_conf(a_a)
    ensures r is Ok ==> cfg_of(a_a.sample_size, a_a.num_concurrent, r->Ok_0),
%fn assemble_termination_criteria(a_a)
    ensures r is Ok ==> (a_a.terminate_after is Some ==> asked(a_a.terminate_after) is Some) && says(r->Ok_0@, a_a.max_obj_func_eval, a_a.target_obj_func_val, asked(a_a.terminate_after), !a_a.no_signal_result),
%fn make_obj_func_def(a_p, a_a, a_k)
    ensures r is Ok ==> r->Ok_0.program == a_p && r->Ok_0.args == a_a && r->Ok_0.kill_obj_func_after == asked(a_k) && (a_k is Some ==> asked(a_k) is Some),
%fn parse_duration(a_s)
    ensures match r { Ok(d) => dur(a_s@) == Some(d), Err(_) => dur(a_s@) is None },
%fn process_report(a_r, a_o)
%attr world
%attr effects write_file println
    requires
        old(vx_w)@.out.len() == 0, old(vx_w)@.res is Some, old(vx_w)@.res->Some_0 == Ok::<FinalReport, Error>(a_r), old(vx_w)@.args is Some,
        a_o is Some ==> is_out_dir(old(vx_w)@, a_o->Some_0@) && old(vx_w)@.made.contains(a_o->Some_0@),
    ensures
        final(vx_w)@ == (CW { files: final(vx_w)@.files, out: final(vx_w)@.out, io_failed: final(vx_w)@.io_failed, ..old(vx_w)@ }), old(vx_w)@.io_failed ==> final(vx_w)@.io_failed,
        match r {
            Ok(_) => final(vx_w)@.out == seq![serde_json::json_text(a_r.best_seen.value)]
                && (a_o is Some ==> final(vx_w)@.files.contains_key(joined(a_o->Some_0@, "summary_report.txt"@)) && final(vx_w)@.files[joined(a_o->Some_0@, "summary_report.txt"@)] == utf8(a_r.shown())),
            Err(_) => final(vx_w)@.io_failed,
        },
%at start
    proof { lemma_names(); }
%fn write_file(a_p, a_d, a_c)
%attr world
%attr effects write
    requires in_own_dir(old(vx_w)@, a_p@),
    ensures match r { Ok(_) => final(vx_w)@ == (CW { files: old(vx_w)@.files.insert(a_p@, a_c@), ..old(vx_w)@ }), Err(_) => final(vx_w)@ == (CW { io_failed: true, ..old(vx_w)@ }) },
%fn dump_diagnostic_files(a_d, a_p)
%attr world
%attr effects write_file
    requires has_dir(old(vx_w)@), old(vx_w)@.made.contains(dir(old(vx_w)@)), dumps(*a_d, dir(old(vx_w)@)),
    ensures
        final(vx_w)@ == (CW { files: final(vx_w)@.files, io_failed: final(vx_w)@.io_failed, ..old(vx_w)@ }), old(vx_w)@.io_failed ==> final(vx_w)@.io_failed,
        match r { Ok(_) => dumped(final(vx_w)@, dir(old(vx_w)@), *a_p), Err(_) => final(vx_w)@.io_failed },
%at start
    proof { lemma_names(); broadcast use ax_joined; }
%fn extract_diagnostic_info(a_o, a_r)
    ensures
        r is Some == (a_o is Some && failing(*a_r) is Some),
        r is Some ==> dumps(r->Some_0.0, a_o->Some_0@) && Some(*r->Some_0.1) == failing(*a_r),
%fn handle_existing_out_dir(a_o, a_f)
%attr world
%attr effects try_exists remove_dir_all create_dir_all create_dir
    requires is_out_dir(old(vx_w)@, a_o@), a_f == old(vx_w)@.args->Some_0.force, old(vx_w)@.res is None,
    ensures
        final(vx_w)@ == (CW { free: final(vx_w)@.free, made: final(vx_w)@.made, io_failed: final(vx_w)@.io_failed, ..old(vx_w)@ }),
        r is Ok ==> final(vx_w)@.made.contains(a_o@),
%fn make_detailed_reporting_file_info(a_a)
    ensures match a_a.out_dir {
        Some(o) => r is Some && r->Some_0.detailed_report_file_path@ == joined(o@, "detailed_report.csv"@) && r->Some_0.best_seen_file_path@ == joined(o@, "best_seen.json"@),
        None => r is None,
    },
%fn DiagnosticDumpFileInfo::new(a_d)
    ensures dumps(r, a_d@),
%fn provide_context(a_r, a_d, a_i)
    ensures match a_r { Ok(x) => r == Ok::<FinalReport, anyhow::Error>(x), Err(_) => r is Err },
%fn main
%attr world
%attr effects Args::parse handle_existing_out_dir load_spec launch_with_async_obj_func dump_diagnostic_files process_report println
    requires old(vx_w)@.args is None, old(vx_w)@.res is None, old(vx_w)@.out.len() == 0, !old(vx_w)@.io_failed,
    ensures
        match final(vx_w)@.res {
            None => r is Err && final(vx_w)@.out.len() == 0,
            Some(Ok(rep)) => match r {
                Ok(_) => final(vx_w)@.out == seq![serde_json::json_text(rep.best_seen.value)]
                    && (has_dir(final(vx_w)@) ==> final(vx_w)@.files.contains_key(joined(dir(final(vx_w)@), "summary_report.txt"@)) && final(vx_w)@.files[joined(dir(final(vx_w)@), "summary_report.txt"@)] == utf8(rep.shown())),
                Err(_) => final(vx_w)@.io_failed,
            },
            Some(Err(e)) => r is Err && final(vx_w)@.out.len() == 0
                && (!final(vx_w)@.io_failed && has_dir(final(vx_w)@) && failing(Err(e)) is Some ==> dumped(final(vx_w)@, dir(final(vx_w)@), failing(Err(e))->Some_0)),
        },
