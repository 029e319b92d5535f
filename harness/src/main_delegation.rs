//! C27 has a program of its own: it contains many user-defined traits, and a change that breaks some of them must not
//! keep the other checks from being built.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod delegation;
mod engine;
mod fieldlist;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C27" => delegation::c27(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
