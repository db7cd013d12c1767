//! Recordings of the real gadgets: sins, sinstable.
#![allow(dead_code, unused_imports)]
#[path = "../ext.rs"]
mod ext;
#[path = "../ecc.rs"]
mod ecc;
#[path = "../sins.rs"]
mod sins;

use pasta_curves::{pallas, vesta};
use serde_json::{json, Value as J};

use ext::{extract, u};

type Fp = pallas::Base;

fn run(c: &J) -> J {
    let g = c["g"].as_str().unwrap();
    match (g, c["field"].as_str().unwrap_or("fp")) {
        ("sins", f) => {
            use halo2_gadgets::utilities::lookup_range_check::{PallasLookupRangeCheck4_5BConfig as R45, PallasLookupRangeCheckConfig as R10};
            match (f, c["priv"].as_bool() == Some(true)) {
                ("r45", false) => extract::<Fp, sins::Sins<R45, false>>(c),
                ("r45", true) => extract::<Fp, sins::Sins<R45, true>>(c),
                (_, false) => extract::<Fp, sins::Sins<R10, false>>(c),
                (_, true) => extract::<Fp, sins::Sins<R10, true>>(c),
            }
        }
        ("sinstable", _) => sins::table(),
        x => panic!("unknown gadget {x:?}"),
    }
}

fn main() {
    ext::drive(run)
}
