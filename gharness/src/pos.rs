//! Poseidon: parameters, primitive and circuit.
use std::convert::TryInto;
use std::marker::PhantomData;

use ff::{Field, FromUniformBytes, PrimeField};
use halo2_gadgets::poseidon::primitives::{self as prim, generate_constants, Absorbing, ConstantLength, Mds, Spec};
use halo2_gadgets::poseidon::{Hash, PaddedWord, PoseidonInstructions, PoseidonSpongeInstructions, Pow5Chip, Pow5Config, Sponge, StateWord};
use halo2_proofs::circuit::{AssignedCell, Layouter};
use halo2_proofs::plonk::*;
use serde_json::{json, Value as J};

use crate::ext::*;

pub trait PF: FromUniformBytes<64> + PrimeField + Ord {}
impl<F: FromUniformBytes<64> + PrimeField + Ord> PF for F {}

/// A specification whose parameters come from the generator.
#[derive(Debug)]
pub struct Gen<const RF: usize, const RP: usize, const M: usize>;
impl<F: PF, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const M: usize> Spec<F, T, RATE> for Gen<RF, RP, M> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(val: F) -> F {
        val.square().square() * val
    }
    fn secure_mds() -> usize {
        M
    }
    fn constants() -> (Vec<[F; T]>, Mds<F, T>, Mds<F, T>) {
        generate_constants::<F, Self, T, RATE>()
    }
}

pub struct Pos<S, const T: usize, const RATE: usize>(PhantomData<S>);
impl<S, const T: usize, const RATE: usize> Default for Pos<S, T, RATE> {
    fn default() -> Self {
        Pos(PhantomData)
    }
}
fn hash<F: PrimeField, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(chip: Pow5Chip<F, T, RATE>, l: &mut impl Layouter<F>, v: Vec<AssignedCell<F, F>>) -> Result<AssignedCell<F, F>, Error> {
    let h = Hash::<F, _, S, ConstantLength<L>, T, RATE>::init(chip, l.namespace(|| "init"))?;
    h.hash(l.namespace(|| "hash"), v.try_into().unwrap())
}
impl<F: PF, S: Spec<F, T, RATE>, const T: usize, const RATE: usize> Gadget<F> for Pos<S, T, RATE> {
    type Config = (Pow5Config<F, T, RATE>, Column<Advice>);
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let state = [(); T].map(|_| meta.advice_column());
        let sbox = meta.advice_column();
        let x = meta.advice_column();
        meta.enable_equality(x);
        let a = [(); T].map(|_| meta.fixed_column());
        let b = [(); T].map(|_| meta.fixed_column());
        (Pow5Chip::configure::<S>(meta, state, sbox, a, b), x)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error> {
        for op in case()["ops"].as_array().unwrap() {
            let chip = Pow5Chip::<F, T, RATE>::construct(c.0.clone());
            let v: Vec<F> = fes(&op["v"]);
            match op["op"].as_str().unwrap() {
                "hash" => {
                    let mut m = vec![];
                    for x in &v {
                        let a = witness(l, c.1, val(known, *x))?;
                        io.put(l, "m", &a)?;
                        m.push(a);
                    }
                    let h = match m.len() {
                        1 => hash::<F, S, T, RATE, 1>(chip, l, m)?,
                        2 => hash::<F, S, T, RATE, 2>(chip, l, m)?,
                        3 => hash::<F, S, T, RATE, 3>(chip, l, m)?,
                        4 => hash::<F, S, T, RATE, 4>(chip, l, m)?,
                        5 => hash::<F, S, T, RATE, 5>(chip, l, m)?,
                        6 => hash::<F, S, T, RATE, 6>(chip, l, m)?,
                        _ => hash::<F, S, T, RATE, 7>(chip, l, m)?,
                    };
                    io.put(l, "h", &h)?;
                }
                "permute" => {
                    let mut m = vec![];
                    for x in &v {
                        let a = witness(l, c.1, val(known, *x))?;
                        io.put(l, "s", &a)?;
                        m.push(StateWord::from(a));
                    }
                    let m: [StateWord<F>; T] = m.try_into().unwrap();
                    let m = <Pow5Chip<F, T, RATE> as PoseidonInstructions<F, S, T, RATE>>::permute(&chip, l, &m)?;
                    for a in m {
                        io.put(l, "t", &a.into())?;
                    }
                }
                _ => {
                    // absorb words and fixed padding in any order, squeeze any number
                    let pads: Vec<usize> = op["pad"].as_array().unwrap().iter().map(u).collect();
                    let mut s = Sponge::<F, _, S, Absorbing<PaddedWord<F>, RATE>, ConstantLength<3>, T, RATE>::new(chip, l.namespace(|| "sponge"))?;
                    for (i, x) in v.iter().enumerate() {
                        if pads.contains(&i) {
                            s.absorb(l.namespace(|| "pad"), PaddedWord::Padding(*x))?;
                        } else {
                            let a = witness(l, c.1, val(known, *x))?;
                            io.put(l, "m", &a)?;
                            s.absorb(l.namespace(|| "word"), PaddedWord::Message(a))?;
                        }
                    }
                    let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
                    for _ in 0..u(&op["n"]) {
                        let a = s.squeeze(l.namespace(|| "squeeze"))?;
                        io.put(l, "o", &a)?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn phash<F: PrimeField, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(v: Vec<F>) -> F {
    prim::Hash::<F, S, ConstantLength<L>, T, RATE>::init().hash(v.try_into().unwrap())
}
/// Constants and primitive.
pub fn primitive<F: PF, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(c: &J) -> J {
    let hx = |v: &[F]| v.iter().map(hex).collect::<Vec<_>>();
    let consts = match guard(S::constants) {
        Ok(x) => x,
        Err(e) => return json!({"id": c["id"], "p": modulus::<F>(), "nbits": F::NUM_BITS, "consts": false, "why": e}),
    };
    let out: Vec<J> = c["ops"].as_array().unwrap().iter().map(|op| {
        let v: Vec<F> = fes(&op["v"]);
        let r = guard(|| match op["op"].as_str().unwrap() {
            "hash" => vec![match v.len() {
                1 => phash::<F, S, T, RATE, 1>(v),
                2 => phash::<F, S, T, RATE, 2>(v),
                3 => phash::<F, S, T, RATE, 3>(v),
                4 => phash::<F, S, T, RATE, 4>(v),
                5 => phash::<F, S, T, RATE, 5>(v),
                6 => phash::<F, S, T, RATE, 6>(v),
                _ => phash::<F, S, T, RATE, 7>(v),
            }],
            _ => {
                let mut s: [F; T] = v.try_into().unwrap();
                prim::test_only_permute::<F, S, T, RATE>(&mut s, &consts.1, &consts.0);
                s.to_vec()
            }
        });
        match r {
            Ok(x) => json!(hx(&x)),
            Err(e) => json!([format!("panic: {e}")]),
        }
    }).collect();
    json!({"id": c["id"], "p": modulus::<F>(), "nbits": F::NUM_BITS, "consts": true, "out": out, "rf": S::full_rounds(), "rp": S::partial_rounds(),
        "rc": consts.0.iter().map(|r| hx(r)).collect::<Vec<_>>(), "mds": consts.1.iter().map(|r| hx(r)).collect::<Vec<_>>(), "inv": consts.2.iter().map(|r| hx(r)).collect::<Vec<_>>()})
}
fn generic<F: PF>(c: &J) -> J {
    match c["spec"].as_str().unwrap() {
        "t2r2p2" => primitive::<F, Gen<2, 2, 0>, 2, 1>(c),
        "t2r4p2m1" => primitive::<F, Gen<4, 2, 1>, 2, 1>(c),
        "t3r2p4" => primitive::<F, Gen<2, 4, 0>, 3, 2>(c),
        "t3r6p10m2" => primitive::<F, Gen<6, 10, 2>, 3, 2>(c),
        "t3r8p56" => primitive::<F, Gen<8, 56, 0>, 3, 2>(c),
        "t3r8p57" => primitive::<F, Gen<8, 57, 0>, 3, 2>(c),
        "t3q1r4p3" => primitive::<F, Gen<4, 3, 0>, 3, 1>(c),
        "t4r4p6" => primitive::<F, Gen<4, 6, 0>, 4, 3>(c),
        "t5r4p0" => primitive::<F, Gen<4, 0, 0>, 5, 4>(c),
        "t5q2r8p6m1" => primitive::<F, Gen<8, 6, 1>, 5, 2>(c),
        x => panic!("unknown spec {x}"),
    }
}
pub fn run(c: &J) -> J {
    use crate::field::*;
    type Fp = pasta_curves::pallas::Base;
    type Fq = pasta_curves::vesta::Base;
    let (f, s) = (c["field"].as_str().unwrap(), c["spec"].as_str().unwrap());
    if c["prim"].as_bool() == Some(true) {
        return match (f, s) {
            ("fp", "p128") => primitive::<Fp, prim::P128Pow5T3, 3, 2>(c),
            ("fq", "p128") => primitive::<Fq, prim::P128Pow5T3, 3, 2>(c),
            ("bb", _) => generic::<BB>(c),
            ("f97", _) => generic::<F97>(c),
            ("fq", _) => generic::<Fq>(c),
            _ => generic::<Fp>(c),
        };
    }
    match (f, s) {
        ("fp", "p128") => extract::<Fp, Pos<prim::P128Pow5T3, 3, 2>>(c),
        ("fq", "p128") => extract::<Fq, Pos<prim::P128Pow5T3, 3, 2>>(c),
        ("fp", "t3r6p10m2") => extract::<Fp, Pos<Gen<6, 10, 2>, 3, 2>>(c),
        ("f97", "t2r2p2") => extract::<F97, Pos<Gen<2, 2, 0>, 2, 1>>(c),
        ("bb", "t2r2p2") => extract::<BB, Pos<Gen<2, 2, 0>, 2, 1>>(c),
        ("bb", "t2r4p2m1") => extract::<BB, Pos<Gen<4, 2, 1>, 2, 1>>(c),
        ("bb", "t3r2p4") => extract::<BB, Pos<Gen<2, 4, 0>, 3, 2>>(c),
        ("bb", "t4r4p6") => extract::<BB, Pos<Gen<4, 6, 0>, 4, 3>>(c),
        ("bb", "t5r4p0") => extract::<BB, Pos<Gen<4, 0, 0>, 5, 4>>(c),
        x => panic!("no circuit {x:?}"),
    }
}
