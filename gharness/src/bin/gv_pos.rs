//! Recordings of the real gadgets: pos.
#![allow(dead_code, unused_imports)]
#[macro_use]
#[path = "../../../harness/src/field.rs"]
mod field;
#[path = "../ext.rs"]
mod ext;
#[path = "../pos.rs"]
mod pos;

use pasta_curves::{pallas, vesta};
use serde_json::{json, Value as J};

use ext::{extract, u};
use field::*;

type Fp = pallas::Base;

fn run(c: &J) -> J {
    let g = c["g"].as_str().unwrap();
    match (g, c["field"].as_str().unwrap_or("fp")) {
        ("pos", _) => pos::run(c),
        x => panic!("unknown gadget {x:?}"),
    }
}

fn main() {
    ext::drive(run)
}
