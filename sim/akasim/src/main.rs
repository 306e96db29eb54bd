//! Whole-broker simulations: akasa-core's real listeners, connection loops, sessions, routing and
//! timers, with simulated clients, network, clock and scheduler.
#![allow(dead_code)]
mod client;
mod hooks;
mod plan;
mod props;
mod scram;
mod view;
mod wire;
mod world;

use serde_json::Value;
use simdrv::{Budget, Info, Suite};

struct Akasim;
impl Suite for Akasim {
    fn props(&self) -> Vec<&'static str> {
        props::all().iter().map(|p| p.id).collect()
    }
    fn budget(&self, prop: &str, thorough: bool) -> Budget {
        let (runs, secs) = props::get(prop).budget;
        if thorough { Budget { runs: runs * 60, secs: 780 } } else { Budget { runs, secs } }
    }
    fn plan(&self, prop: &str, seed: u64, i: u64) -> Value {
        serde_json::to_value(props::plan(prop, seed, i)).unwrap()
    }
    fn exec(&self, plan: &Value, trace: bool) -> ! {
        world::exec(plan, trace)
    }
    fn simplify(&self, plan: &Value) -> Vec<Value> {
        props::simplify(plan)
    }
    fn info(&self, prop: &str) -> Info {
        let p = props::get(prop);
        Info {
            rule: p.rule.into(),
            level_note: p.note.into(),
            assumptions: props::assumptions(),
            real: props::real(),
            stub: props::stub(),
        }
    }
}
/// For looking into one run: AKASIM_LOG=debug akasim run PROP I
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("  log {} {}", r.target(), r.args());
    }
    fn flush(&self) {}
}
fn main() {
    if let Some(l) = std::env::var("AKASIM_LOG").ok().and_then(|l| l.parse().ok()) {
        log::set_max_level(l);
        let _ = log::set_logger(&Log);
    }
    std::process::exit(simdrv::main(&Akasim))
}
