#![allow(clippy::all)]
#![type_length_limit = "37907580"]
#![recursion_limit = "512"]
mod collide;
mod env;
mod m_fs;
mod m_crash;
mod m_raid;
mod m_degrade;
mod m_rot;
mod m_multi;
mod m_sets;
mod m_tree;
mod m_sched;
#[cfg(feature = "fuse")]
mod m_fuse;
#[cfg(feature = "rpc")]
mod m_rpc;
#[cfg(all(feature = "fuse", not(feature = "rpc")))]
#[path = "/repo/bfffs/src/bin/bfffsd/fs.rs"]
#[allow(dead_code)]
mod fs;
#[cfg(feature = "rpc")]
mod fs { pub use crate::m_rpc::daemon::monitored::FuseFs; }
use mon::Check;
use serde_json::json;
use std::collections::VecDeque;

/// The property this run is for
pub fn prop() -> String { std::env::args().nth(2).unwrap_or_else(|| "C00".into()) }
/// Did this panic come from bfffs (or a library it called), rather than from the monitor?
pub fn in_repo(p: &str) -> bool { let at = p.rsplit_once(" at ").map(|x| x.1).unwrap_or(""); !at.starts_with("src/") && !at.contains("/verif/") || p.contains("/repo/bfffs") }
/// The first panic of this case: later ones are mostly its consequences
pub fn first_panic(before: usize, p: String) -> String { mon::ALL_PANICS.lock().unwrap().iter().skip(before).find(|p| in_repo(p)).cloned().unwrap_or(p) }
/// A panic inside bfffs is a violation of whatever the client was relying on
pub fn panicked(ck: &mut Check, area: &str, p: &str, case: u64, log: &VecDeque<String>, o: &str) {
    if !in_repo(p) { eprintln!("the monitor itself: {p}\n{log:#?}"); env::cleanup(); std::process::exit(4); }
    ck.violation(&format!("panic: {}", mon::panic_key(p)), &json!({"case": case, "area": area, "what": p, "history": log.iter().collect::<Vec<_>>(), "setup": o}));
}
fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("names") => m_fs::run("names", &["names"]),
        Some("data") => m_fs::run("data", &["data"]),
        Some("attrs") => m_fs::run("attrs", &["attrs"]),
        Some("persist") => m_fs::run("persist", &["persist"]),
        Some("space") => m_fs::run("space", &["space"]),
        Some("crash") => m_crash::run(),
        Some("raid") => m_raid::run(),
        Some("degrade") => m_degrade::run(),
        Some("rot") => m_rot::run(),
        Some("multi") => m_multi::run(),
        Some("alike") => for i in 0..4 { println!("{:?}", collide::short(&mon::Rng::new(i))); },
        #[cfg(feature = "fuse")]
        Some("fuse") => m_fuse::run(),
        #[cfg(feature = "rpc")]
        Some("rpc") => m_rpc::run(),
        Some("tree") => m_tree::run(),
        Some("sets") => m_sets::run(),
        Some("sched") => m_sched::run(),
        x => { eprintln!("no monitor {x:?}"); std::process::exit(2) }
    }
}
