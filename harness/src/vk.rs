//! `vk` command: keys of a family of circuits - their digests, whether they depend on the
//! witness, and what happens to a proof of one circuit under the key of another.
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::Params;
use halo2_proofs::transcript::*;
use serde_json::{json, Map, Value as J};

use crate::circ::*;
use crate::field::*;
use crate::prog::*;
use crate::rec::*;

type C = ABB;

fn digest(vk: &VerifyingKey<C>) -> u64 {
    let mut t = Rt::new(Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]));
    vk.hash_into(&mut t).unwrap();
    assert_eq!(t.ev.len(), 1);
    assert_eq!(t.ev[0].0, "cs");
    t.ev[0].1
}
/// a 30-bit name of a pinned key
fn pin(vk: &VerifyingKey<C>) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in format!("{:?}", vk.pinned()).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h >> 20) & 0x3fff_ffff
}

struct Made {
    k: u32,
    vk: Option<VerifyingKey<C>>,
    proof: Option<Vec<u8>>,
    insts: Vec<Vec<Vec<F>>>,
}

pub fn run(case: &J) -> J {
    let mut out = Map::new();
    out.insert("id".into(), case["id"].clone());
    let mut made: Vec<Made> = vec![];
    let mut js = vec![];
    for pj in case["progs"].as_array().unwrap() {
        let p = Prog::parse(pj);
        let (m, j) = if p.v1 { one::<V1>(p) } else { one::<Simple>(p) };
        made.push(m);
        js.push(j);
    }
    let mut cross = vec![];
    for (i, m) in made.iter().enumerate() {
        if let Some(proof) = &m.proof {
            for (j, w) in made.iter().enumerate() {
                if let Some(vk) = &w.vk {
                    if i == j || i == 0 || j == 0 {
                        let params = Params::<C>::new(w.k);
                        let (r, _, _) = read_verify(&params, vk, &m.insts, proof);
                        cross.push(json!([i, j, res(&r)]));
                    }
                }
            }
        }
    }
    out.insert("made".into(), J::Array(js));
    out.insert("cross".into(), J::Array(cross));
    J::Object(out)
}

fn one<P: FloorPlanner>(p: Prog) -> (Made, J) {
    let p = set_prog(p);
    let params = Params::<C>::new(p.k);
    let nv = p.inst.len();
    let c0 = PC::<P>::new(0).without_witnesses();
    let mut m = Made { k: p.k, vk: None, proof: None, insts: vec![p.instances(0)] };
    let rec = guard(|| record(&c0, None, None));
    let rec = match rec {
        Ok(r) => r,
        Err(e) => return (m, json!({"res": e})),
    };
    let vk = flat(guard(|| keygen_vk(&params, &c0)));
    let mut digests = vec![];
    let mut pins = vec![];
    let mut proofs: Vec<Vec<u8>> = vec![];
    let r0 = res(&vk);
    let mut errs = vec![];
    if let Ok(vk) = vk {
        digests.push(digest(&vk));
        pins.push(pin(&vk));
        // again, from circuits that know their witness
        for v in 0..nv {
            match flat(guard(|| keygen_vk(&params, &PC::<P>::new(v)))) {
                Ok(w) => {
                    digests.push(digest(&w));
                    pins.push(pin(&w));
                }
                Err(e) => errs.push(e),
            }
        }
        let iv: Vec<Vec<&[F]>> = m.insts.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect();
        let ir: Vec<&[&[F]]> = iv.iter().map(|p| &p[..]).collect();
        for v in 0..3 {
            let pk = if v == 0 { flat(guard(|| keygen_pk(&params, vk.clone(), &c0))) } else { flat(guard(|| keygen_pk(&params, vk.clone(), &PC::<P>::new(v % nv)))) };
            match pk {
                Ok(pk) => {
                    digests.push(digest(pk.get_vk()));
                    pins.push(pin(pk.get_vk()));
                    let mut t = Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]);
                    match flat(guard(|| create_proof(&params, &pk, &[PC::<P>::new(0)], &ir, Rng(99), &mut t))) {
                        Ok(()) => proofs.push(t.finalize()),
                        Err(_) => proofs.push(vec![]),
                    }
                }
                Err(e) => errs.push(e),
            }
        }
        if !proofs.is_empty() && !proofs[0].is_empty() {
            m.proof = Some(proofs[0].clone());
        }
        m.vk = Some(vk);
    }
    let same = proofs.iter().all(|p| *p == proofs[0]);
    (m, json!({"res": r0, "rec": rec, "digests": digests, "pins": pins, "sameproof": same, "errs": errs}))
}
