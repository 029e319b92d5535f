//! C15 - C17.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod engine;
mod fieldlist;
mod fields;
mod shamir;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C15" => shamir::c15(rep),
        "C16" => shamir::c16(rep),
        "C17" => shamir::c17(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
