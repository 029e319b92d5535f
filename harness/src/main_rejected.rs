//! Reports that the program of C27 cannot be built: the attribute rejects or breaks a supported trait.
#![allow(dead_code)]

mod engine;

use engine::*;

fn main() {
    let (id, rep) = start();
    assert_eq!(id, "C27");
    let log = std::env::args().nth(3).and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    let first = log.lines().find(|l| l.starts_with("error")).unwrap_or("the compiler failed").to_string();
    rep.bound("compilation of the alphabet of traits only");
    rep.case(|| "the traits of the alphabet compile".into(), || Err(format!("a supported trait is rejected: {}", first)));
    std::process::exit(rep.finish());
}
