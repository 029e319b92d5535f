//! C09, C10.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod crypt;
mod engine;
mod fieldlist;
mod fields;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C09" => crypt::c09(rep),
        "C10" => crypt::c10(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
