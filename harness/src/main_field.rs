//! C05 - C08.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod engine;
mod fieldlist;
mod fields;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C05" => fields::c05(rep),
        "C06" => fields::c06(rep),
        "C07" => fields::c07(rep),
        "C08" => fields::c08(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
