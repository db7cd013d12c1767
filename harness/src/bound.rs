//! `bound` command: the outcome of every stage on a circuit that may touch rows outside the
//! usable ones, or be given instances of the wrong shape.  `size` command: predicted and real
//! proof sizes.
use ff::Field;
use halo2_proofs::dev::{CircuitCost, MockProver};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::Params;
use halo2_proofs::transcript::*;
use serde_json::{json, Map, Value as J};

use crate::circ::*;
use crate::field::*;
use crate::prog::*;
use crate::rec::*;

type C = ABB;

fn insts_of(j: &J) -> Vec<Vec<Vec<F>>> {
    let arr = |x: &J| x.as_array().cloned().unwrap_or_default();
    arr(j).iter().map(|p| arr(p).iter().map(|c| arr(c).iter().map(|v| F::from(v.as_u64().unwrap())).collect()).collect()).collect()
}
fn refs(i: &[Vec<Vec<F>>]) -> Vec<Vec<&[F]>> {
    i.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect()
}

pub fn run(case: &J) -> J {
    let p = Prog::parse(&case["prog"]);
    if p.v1 {
        go::<V1>(case)
    } else {
        go::<Simple>(case)
    }
}

fn prove<P: FloorPlanner>(params: &Params<C>, pk: &ProvingKey<C>, vs: &[usize], insts: &[Vec<Vec<F>>], seed: u64) -> (Result<(), String>, Vec<u8>) {
    let circuits: Vec<PC<P>> = vs.iter().map(|v| PC::<P>::new(*v)).collect();
    let iv = refs(insts);
    let ir: Vec<&[&[F]]> = iv.iter().map(|p| &p[..]).collect();
    let mut t = Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]);
    let r = flat(guard(|| create_proof(params, pk, &circuits, &ir, Rng(seed), &mut t)));
    (r, t.finalize())
}
fn verify(params: &Params<C>, vk: &VerifyingKey<C>, insts: &[Vec<Vec<F>>], proof: &[u8]) -> Result<(), String> {
    read_verify(params, vk, insts, proof).0
}

fn go<P: FloorPlanner>(case: &J) -> J {
    let base = Prog::parse(&case["prog"]);
    let other = if case["prog2"].is_object() { Some(Prog::parse(&case["prog2"])) } else { None };
    let p = set_prog(base.clone());
    let mut out = Map::new();
    out.insert("id".into(), case["id"].clone());
    let conf = guard(|| {
        let mut cs = ConstraintSystem::<F>::default();
        PC::<P>::configure(&mut cs);
        json!({"bf": cs.blinding_factors(), "minrows": cs.minimum_rows(), "degree": cs.degree()})
    });
    match conf {
        Ok(c) => out.insert("cs".into(), c),
        Err(e) => {
            out.insert("conferr".into(), json!(e));
            return J::Object(out);
        }
    };
    out.insert("rec".into(), record(&PC::<P>::new(0), Some(p.instances(0)), None));
    let nv = p.inst.len();
    let c0 = PC::<P>::new(0).without_witnesses();
    let mocks = |vs: usize, p: &Prog| -> J {
        J::Array(
            (0..vs)
                .map(|v| {
                    let m = flat(guard(|| MockProver::run(p.k, &PC::<P>::new(v), p.instances(v))));
                    match m {
                        Err(e) => json!({"res": e, "n": 0}),
                        Ok(m) => match guard(|| m.verify()) {
                            Err(e) => json!({"res": e, "n": 0}),
                            Ok(Ok(())) => json!({"res": "ok", "n": 0}),
                            // cells a gate expected to be assigned are a report of their own kind
                            Ok(Err(f)) => json!({"res": "ok", "n": f.iter().filter(|x| !matches!(x, halo2_proofs::dev::VerifyFailure::CellNotAssigned { .. })).count()}),
                        },
                    }
                })
                .collect(),
        )
    };
    out.insert("mock".into(), mocks(nv, &p));
    let params = Params::<C>::new(p.k);
    let vk = flat(guard(|| keygen_vk(&params, &c0)));
    out.insert("vk".into(), res(&vk));
    let mut proofs = vec![];
    if let Ok(vk) = vk {
        let pk = flat(guard(|| keygen_pk(&params, vk.clone(), &c0)));
        out.insert("pk".into(), res(&pk));
        // a proving key made from a circuit of another size, against this verifying key
        if let Some(o) = &other {
            let o = set_prog(o.clone());
            let pk2 = flat(guard(|| keygen_pk(&params, vk.clone(), &c0)));
            out.insert("pk2".into(), res(&pk2));
            out.insert("mock2".into(), mocks(1, &o));
            out.insert("rec2".into(), record(&PC::<P>::new(0), Some(o.instances(0)), None));
            if let Ok(pk) = &pk {
                let (r, bytes) = prove::<P>(&params, pk, &[0], &[o.instances(0)], 5);
                out.insert("prove2".into(), res(&r));
                let v = if r.is_ok() { verify(&params, &vk, &[o.instances(0)], &bytes) } else { Ok(()) };
                out.insert("ver2".into(), res(&v));
            }
            set_prog(base.clone());
        }
        if let Ok(pk) = pk {
            let mut good: Option<Vec<u8>> = None;
            for s in case["proofs"].as_array().cloned().unwrap_or_default() {
                let vs: Vec<usize> = s["vs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let insts = insts_of(&s["inst"]);
                let (r, bytes) = prove::<P>(&params, &pk, &vs, &insts, 11 + case["seed"].as_u64().unwrap_or(0));
                let v = if r.is_ok() { verify(&params, &vk, &insts, &bytes) } else { Err("none".into()) };
                if r.is_ok() && good.is_none() {
                    good = Some(bytes.clone());
                }
                // and the verifier alone on these instances, whatever the proof
                let w = match &good {
                    Some(b) => verify(&params, &vk, &insts, b),
                    None => Err("none".into()),
                };
                proofs.push(json!({"prove": res(&r), "verify": res(&v), "other": res(&w)}));
            }
        }
    }
    out.insert("proofs".into(), J::Array(proofs));
    J::Object(out)
}

pub fn size(case: &J) -> J {
    let p = Prog::parse(&case["prog"]);
    if p.v1 {
        go_size::<V1>(case)
    } else {
        go_size::<Simple>(case)
    }
}
fn go_size<P: FloorPlanner>(case: &J) -> J {
    let p = set_prog(Prog::parse(&case["prog"]));
    let mut out = Map::new();
    out.insert("id".into(), case["id"].clone());
    let sets: Vec<Vec<usize>> = case["sets"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
    let c0 = PC::<P>::new(0).without_witnesses();
    let known = PC::<P>::new(0);
    let r = guard(|| {
        let cost = CircuitCost::<CBB, PC<P>>::measure(p.k, &known);
        let m = sets.iter().map(|s| usize::from(cost.proof_size(s.len()))).collect::<Vec<_>>();
        (m, usize::from(cost.marginal_proof_size()))
    });
    match r {
        Ok((m, g)) => {
            out.insert("predicted".into(), json!(m));
            out.insert("marginal".into(), json!(g));
        }
        Err(e) => {
            out.insert("crash".into(), json!(e));
            return J::Object(out);
        }
    }
    let params = Params::<C>::new(p.k);
    let vk = flat(guard(|| keygen_vk(&params, &c0)));
    let pk = vk.and_then(|vk| flat(guard(|| keygen_pk(&params, vk, &c0))));
    let mut real = vec![];
    match pk {
        Err(e) => {
            out.insert("crash".into(), json!(e));
        }
        Ok(pk) => {
            out.insert("pinned".into(), json!(format!("{:?}", pk.get_vk().pinned())));
            for s in &sets {
                let insts: Vec<Vec<Vec<F>>> = s.iter().map(|v| p.instances(*v)).collect();
                let (r, bytes) = prove::<P>(&params, &pk, s, &insts, 3);
                match r {
                    Ok(()) => {
                        let iv = refs(&insts);
                        let ir: Vec<&[&[F]]> = iv.iter().map(|p| &p[..]).collect();
                        let mut cur = std::io::Cursor::new(&bytes[..]);
                        let mut t = Blake2bRead::<_, C, Challenge255<C>>::init(&mut cur);
                        let v = flat(guard(|| verify_proof(&params, pk.get_vk(), SingleVerifier::new(&params), &ir, &mut t)));
                        drop(t);
                        real.push(json!({"len": bytes.len(), "read": cur.position(), "ver": res(&v)}));
                    }
                    Err(e) => real.push(json!({"len": 0, "read": 0, "ver": e})),
                }
            }
        }
    }
    out.insert("real".into(), J::Array(real));
    J::Object(out)
}
#[allow(unused)]
fn z() -> F {
    F::ZERO
}
