//! C18 - C23, C25, C26.
#![recursion_limit = "512"]
#![allow(dead_code)]

mod bignet;
mod engine;
mod fieldlist;
mod fields;
mod net;
mod sessions;
mod shamir;
mod sharing;
mod util;

use engine::*;

fn main() {
    let (id, rep) = start();
    rep.watchdog();
    // these run the code under test in single-threaded processes: it has tables shared by a whole process
    if ["C21", "C23", "C25", "C26", "C29"].contains(&id) && rep.shard.is_none() && rep.replay.is_none() {
        rep.run_shards(threads());
        if id == "C23" {
            sharing::c23_judge(rep);
        }
        std::process::exit(rep.finish());
    }
    match id {
        "C18" => sharing::c18(rep),
        "C19" => sharing::c19(rep),
        "C20" => sharing::c20(rep),
        "C21" => sharing::c21(rep),
        "C22" => sharing::c22(rep),
        "C23" => {
            sharing::c23(rep);
            if rep.shard.is_none() {
                sharing::c23_judge(rep);
            }
        }
        "C25" => sharing::c25(rep),
        "C26" => sharing::c26(rep),
        "C29" => sessions::c29(rep),
        _ => unknown(id),
    }
    std::process::exit(rep.finish());
}
