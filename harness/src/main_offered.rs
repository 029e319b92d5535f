//! C28.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod bignet;
mod engine;
mod fieldlist;
mod fields;
mod hashes;
mod net;
mod offered;
mod refhash;
mod shamir;
mod sharing;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C28" => offered::c28(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
