//! C01 - C04.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod engine;
mod hashes;
mod refhash;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C01" => hashes::c01(rep),
        "C02" => hashes::c02(rep),
        "C03" => hashes::c03(rep),
        "C04" => hashes::c04(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
