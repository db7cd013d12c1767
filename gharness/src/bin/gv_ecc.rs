//! Recordings of the real gadgets: ecc, ecctables, findz.
#![allow(dead_code, unused_imports)]
#[path = "../ext.rs"]
mod ext;
#[path = "../ecc.rs"]
mod ecc;

use pasta_curves::{pallas, vesta};
use serde_json::{json, Value as J};

use ext::{extract, u};

type Fp = pallas::Base;

fn run(c: &J) -> J {
    let g = c["g"].as_str().unwrap();
    match (g, c["field"].as_str().unwrap_or("fp")) {
        ("ecc", "r45") => extract::<Fp, ecc::Ecc<halo2_gadgets::utilities::lookup_range_check::PallasLookupRangeCheck4_5BConfig>>(c),
        ("ecc", _) => extract::<Fp, ecc::Ecc<halo2_gadgets::utilities::lookup_range_check::PallasLookupRangeCheckConfig>>(c),
        ("ecctables", _) => ecc::tables(c),
        ("findz", _) => json!(ecc::find(u(&c["base"]), u(&c["n"]))),
        x => panic!("unknown gadget {x:?}"),
    }
}

fn main() {
    ext::drive(run)
}
