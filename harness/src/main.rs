mod battery;
mod codec;
mod gen;
mod launcher;
mod ops;
mod oracle;
mod report;
mod runs;
mod specdoc;

use std::time::{Duration, Instant};

/// Formats every record and drops it: what the code computes for its log is executed too.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, rec: &log::Record) {
        std::hint::black_box(format!("{}", rec.args()).len());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

/// Logging is on for every other case (a replayed case sees the same).
fn logging(i: u64) {
    log::set_max_level(if (i ^ (i >> 3)) % 2 == 0 { log::LevelFilter::Off } else { log::LevelFilter::Trace });
}

fn main() {
    log::set_logger(&SINK).unwrap();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let suites = get("--suites").unwrap_or_default();
    let only: Option<u64> = get("--index").and_then(|s| s.parse().ok());
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let max_secs: f64 = get("--max-secs").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    report::install_panic_hook();
    report::watchdog(20);
    for suite in suites.split(',').filter(|s| !s.is_empty()) {
        let start = Instant::now();
        let n = |k: u64| ((k as f64 * scale).ceil() as u64).max(1);
        let lim = Duration::from_secs_f64(max_secs);
        let go = |count: u64, f: &dyn Fn(u64)| match only {
            Some(i) => {
                logging(i);
                f(i)
            }
            None => {
                for i in 0..count {
                    if start.elapsed() > lim {
                        break;
                    }
                    logging(i);
                    f(i);
                }
            }
        };
        match suite {
            "ops" => {
                report::rule("ops", "random well-formed spec, 25 recombination/mutation steps from its initial value or a guess, extreme parameters included; non-trivial: spec is not const; distinct: hash of spec and results");
                go(n(1500), &|i| ops::run_case(seed, i));
            }
            "targeted" => {
                report::rule("targeted", "fixed shapes for liveness, start-from-initial-value, mixing and selection frequencies, random numbers; distinct: hash of the observed frequencies");
                go(n(40), &|i| ops::targeted(seed, i));
            }
            "runs" => {
                report::rule("runs", "scripted runs of async_launch::launch: random spec, configuration, results, completion order and termination; distinct: hash of the evaluate() trace and outcome");
                go(n(1500), &|i| runs::run_case(seed, i));
            }
            "launcher" => {
                report::rule("launcher", "sync_launch::launch with in-process functions: width of the concurrency, report files, target, time limit, values that are not finite; distinct: hash of the configuration and the records");
                go(n(80), &|i| launcher::run_case(seed, i));
            }
            "codec" => {
                report::rule("codec", "random well-formed spec, 6 conforming values each round-tripped, boundary and corrupted guess documents against guess_ok; distinct: hash of spec and values");
                go(n(2500), &|i| codec::run_case(seed, i));
            }
            "specdoc" => {
                report::rule("specdoc", "random document with type definitions, 6 corruptions and one byte-level damage each, against the reference reader; non-trivial: at least one accepted; distinct: hash of the document");
                specdoc::fixed();
                go(n(3000), &|i| specdoc::run_case(seed, i));
            }
            "battery" => {
                report::rule("battery", "fixed problems with known optimum; distinct: problem");
                battery::battery();
            }
            "adversarial" => {
                report::rule("adversarial", "long runs under objective functions that push the adaptation to its limits; distinct: objective kind and spec");
                let len = (2500.0 * scale.max(0.2)) as usize;
                go(40, &|i| battery::adversarial(seed, i, len));
            }
            "meta" => {
                report::rule("meta", "200 successive adaptation steps from extreme parameters; distinct: start");
                go(n(2000), &|i| battery::meta(seed, i));
            }
            s => {
                eprintln!("unknown suite {}", s);
                std::process::exit(2);
            }
        }
    }
    report::flush();
}
