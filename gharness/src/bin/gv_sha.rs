//! Recordings of the real gadgets: sha.
#![allow(dead_code, unused_imports)]
#[path = "../ext.rs"]
mod ext;
#[path = "../sha.rs"]
mod sha;

use pasta_curves::{pallas, vesta};
use serde_json::{json, Value as J};

use ext::{extract, u};

type Fp = pallas::Base;

fn run(c: &J) -> J {
    let g = c["g"].as_str().unwrap();
    match (g, c["field"].as_str().unwrap_or("fp")) {
        ("sha", _) => sha::run(c),
        x => panic!("unknown gadget {x:?}"),
    }
}

fn main() {
    ext::drive(run)
}
