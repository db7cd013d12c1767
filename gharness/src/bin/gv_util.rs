//! Recordings of the real gadgets: swap, range, range45, sum, native.
#![allow(dead_code, unused_imports)]
#[macro_use]
#[path = "../../../harness/src/field.rs"]
mod field;
#[path = "../ext.rs"]
mod ext;
#[path = "../util.rs"]
mod util;

use pasta_curves::{pallas, vesta};
use serde_json::{json, Value as J};

use ext::{extract, u};
use field::*;

type Fp = pallas::Base;

fn run(c: &J) -> J {
    let g = c["g"].as_str().unwrap();
    match (g, c["field"].as_str().unwrap_or("fp")) {
        ("swap", "bb") => extract::<BB, util::Swap>(c),
        ("swap", "f97") => extract::<F97, util::Swap>(c),
        ("swap", _) => extract::<Fp, util::Swap>(c),
        ("range", "f97") => extract::<F97, util::Range<2>>(c),
        ("range", "bb2") => extract::<BB, util::Range<2>>(c),
        ("range", "bb3") => extract::<BB, util::Range<3>>(c),
        ("range", "bb8") => extract::<BB, util::Range<8>>(c),
        ("range", _) => extract::<Fp, util::Range<10>>(c),
        ("range45", "f7681") => extract::<F7681, util::Range45<6>>(c),
        ("range45", "bb6") => extract::<BB, util::Range45<6>>(c),
        ("range45", _) => extract::<Fp, util::Range45<10>>(c),
        ("sum", f) => match (u(&c["w"]), f) {
            (1, "f97") => extract::<F97, util::Sum<1>>(c),
            (2, "f97") => extract::<F97, util::Sum<2>>(c),
            (3, "f97") => extract::<F97, util::Sum<3>>(c),
            (1, "bb") => extract::<BB, util::Sum<1>>(c),
            (2, "bb") => extract::<BB, util::Sum<2>>(c),
            (3, "bb") => extract::<BB, util::Sum<3>>(c),
            (1, _) => extract::<Fp, util::Sum<1>>(c),
            (2, _) => extract::<Fp, util::Sum<2>>(c),
            (_, _) => extract::<Fp, util::Sum<3>>(c),
        },
        ("native", "bb") => util::native::<BB>(c),
        ("native", _) => util::native::<Fp>(c),
        x => panic!("unknown gadget {x:?}"),
    }
}

fn main() {
    ext::drive(run)
}
