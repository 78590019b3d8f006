//! vx: mechanical extractor from /repo's Rust sources to Verus.
//!
//! usage: vx REPO UNIT.vspec OUT.rs OUT.json
//!
//! Reads a unit description (contracts, loop invariants, specs, lemmas), pulls the named
//! functions and types out of the real sources, applies the fixed rewrites of lower.rs, and
//! writes one Verus file plus a JSON map (functions, line ranges, lost anchors, rewrites used).
mod early;
mod extract;
mod lower;
mod print;
mod unit;

use std::fs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: vx REPO UNIT.vspec OUT.rs OUT.json");
        std::process::exit(2);
    }
    let u = match unit::load(&a[2]) {
        Ok(u) => u,
        Err(e) => {
            eprintln!("vx: {}: {}", a[2], e);
            std::process::exit(2);
        }
    };
    let out = extract::run(&a[1], &u);
    fs::write(&a[3], &out.text).expect("write");
    fs::write(&a[4], serde_json::to_string_pretty(&out.map).unwrap()).expect("write");
}
