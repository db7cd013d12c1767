//! The table-based SHA-256 chip.  Its cells are not exposed, so the interface is found in the recording by value.
use std::cell::RefCell;
use std::convert::TryInto;

use halo2_gadgets::sha256::{BlockWord, Sha256, Sha256Instructions, Table16Chip, Table16Config, BLOCK_SIZE};
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::plonk::*;
use pasta_curves::pallas;
use serde_json::Value as J;

use crate::ext::*;

type Fp = pallas::Base;

thread_local! {
    static OUT: RefCell<String> = RefCell::new(String::new());
}
/// What the gadget returned as the digest.
pub fn run(c: &J) -> J {
    let mut o = extract::<Fp, Sha>(c);
    if let Some(o) = o.as_object_mut() {
        o.insert("digest".into(), OUT.with(|x| J::String(x.borrow().clone())));
    }
    o
}

#[derive(Default)]
pub struct Sha;
impl Gadget<Fp> for Sha {
    type Config = Table16Config;
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        Table16Chip::configure(meta)
    }
    fn synth(config: Self::Config, _: Io, l: &mut impl Layouter<Fp>, known: bool) -> Result<(), Error> {
        let c = case();
        Table16Chip::load(config.clone(), l)?;
        let chip = Table16Chip::construct(config);
        let words: Vec<BlockWord> = c["words"].as_array().unwrap().iter()
            .map(|w| BlockWord(if known { Value::known(w.as_u64().unwrap() as u32) } else { Value::unknown() })).collect();
        let out = if c["via"] == "chip" {
            let mut s = chip.initialization_vector(l)?;
            for (i, b) in words.chunks(BLOCK_SIZE).enumerate() {
                if i > 0 {
                    s = chip.initialization(l, &s)?;
                }
                s = chip.compress(l, &s, b.try_into().unwrap())?;
            }
            format!("{:?}", chip.digest(l, &s)?)
        } else if c["via"] == "digest" {
            format!("{:?}", Sha256::digest(chip, l.namespace(|| "d"), &words)?)
        } else {
            let mut h = Sha256::new(chip, l.namespace(|| "n"))?;
            let mut at = 0;
            for n in c["chunks"].as_array().unwrap() {
                let n = n.as_u64().unwrap() as usize;
                h.update(l.namespace(|| "u"), &words[at..at + n])?;
                at += n;
            }
            format!("{:?}", h.finalize(l.namespace(|| "f"))?)
        };
        if known {
            OUT.with(|x| *x.borrow_mut() = out);
        }
        Ok(())
    }
}
