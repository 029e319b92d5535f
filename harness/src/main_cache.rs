//! C24.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod bignet;
mod caches;
mod engine;
mod fieldlist;
mod fields;
mod net;
mod shamir;
mod sharing;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    // these run the code under test in single-threaded processes: it has tables shared by a whole process
    if true && rep.shard.is_none() && rep.replay.is_none() {
        rep.run_shards(threads());
        std::process::exit(rep.finish());
    }
    match id {
        "C24" => caches::c24(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
