//! C11 - C14.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod engine;
mod ratchet;
mod ratchet_sym;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    match id {
        "C11" => ratchet::c11(rep),
        "C12" => ratchet::c12(rep),
        "C13" => ratchet_sym::c13(rep),
        "C14" => ratchet_sym::c14(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
