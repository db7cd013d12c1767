//! `blind` command: how every message of a proof moves with every draw the prover makes from
//! its random number generator, the challenges being held fixed.
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{self, Blind, Params};
use halo2_proofs::poly::multiopen::{self, ProverQuery};
use halo2_proofs::poly::{Coeff, EvaluationDomain, Polynomial};
use halo2_proofs::transcript::*;
use rand_core::{impls, Error as RErr, RngCore};
use serde_json::{json, Map, Value as J};

use crate::circ::*;
use crate::field::*;
use crate::poly::{arr, fs, u};
use crate::prog::*;
use crate::rec::*;

type C = ABB;

/// The generator of `inner`, with draw number `alter` raised by `by`; counts the draws.
struct Altered {
    inner: Rng,
    n: Rc<RefCell<usize>>,
    alter: Option<usize>,
}
impl RngCore for Altered {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        // small enough for the raised value never to wrap
        let x = self.inner.next_u64() % (BB::P - 1);
        let mut n = self.n.borrow_mut();
        let y = if self.alter == Some(*n) { x + 1 } else { x };
        *n += 1;
        y
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        impls::fill_bytes_via_next(self, d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RErr> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A transcript whose challenges are a fixed sequence, whatever is absorbed.
struct Fixed {
    chal: Rng,
    ev: Vec<(&'static str, u64)>,
}
impl Transcript<C, Challenge255<C>> for Fixed {
    fn squeeze_challenge(&mut self) -> Challenge255<C> {
        let mut b = [0u8; 64];
        self.chal.fill_bytes(&mut b);
        let c = Challenge255::<C>::new(&b);
        self.ev.push(("sq", c.get_scalar().get()));
        c
    }
    fn common_point(&mut self, p: C) -> io::Result<()> {
        self.ev.push(("cp", p.dlog()));
        Ok(())
    }
    fn common_scalar(&mut self, s: F) -> io::Result<()> {
        self.ev.push(("cs", s.get()));
        Ok(())
    }
}
impl TranscriptWrite<C, Challenge255<C>> for Fixed {
    fn write_point(&mut self, p: C) -> io::Result<()> {
        self.ev.push(("p", p.dlog()));
        Ok(())
    }
    fn write_scalar(&mut self, s: F) -> io::Result<()> {
        self.ev.push(("s", s.get()));
        Ok(())
    }
}


/// One run unaltered, one more to see that it is a function of the draws, and one per draw.
fn study(seed: u64, threads: usize, go: impl Fn(Altered, &mut Fixed) -> Result<(), Error> + Send + Sync) -> J {
    let once = |alter: Option<usize>| {
        let n = Rc::new(RefCell::new(0));
        let rng = Altered { inner: Rng(seed), n: n.clone(), alter };
        let mut t = Fixed { chal: Rng(seed ^ 0x5555), ev: vec![] };
        let r = flat(guard(|| go(rng, &mut t)));
        let n = *n.borrow();
        (r, t.ev, n)
    };
    let (r, base, n) = once(None);
    // on another number of threads
    let (r2, again, n2) = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| once(None));
    let mut rows = vec![];
    let mut bad = vec![];
    if r.is_ok() && n <= 1200 {
        for j in 0..n {
            let (r, ev, m) = once(Some(j));
            if r.is_err() || m != n || ev.len() != base.len() || ev.iter().zip(&base).any(|(a, b)| a.0 != b.0) {
                bad.push(j);
                continue;
            }
            let row: Vec<J> = ev
                .iter()
                .zip(&base)
                .enumerate()
                .filter(|(_, (a, b))| a.1 != b.1)
                .map(|(i, (a, b))| json!([i + 1, (a.1 + BB::P - b.1) % BB::P]))
                .collect();
            rows.push(J::Array(row));
        }
    }
    json!({"res": res(&r), "ev": evj(&base), "draws": n, "same": r2 == r && again == base && n2 == n, "rows": rows, "bad": bad})
}

pub fn run(case: &J) -> J {
    crate::poly::with_threads(case, || {
        if case.get("prog").is_none() {
            return opening(case);
        }
        let p = Prog::parse(&case["prog"]);
        let v1 = p.v1;
        set_prog(p);
        if v1 {
            go::<V1>(case)
        } else {
            go::<Simple>(case)
        }
    })
}

fn go<P: FloorPlanner + Send + Sync>(case: &J) -> J {
    let p = prog();
    let mut out = Map::new();
    out.insert("id".into(), case["id"].clone());
    let params = Params::<C>::new(p.k);
    out.insert("params".into(), params_dlogs(&params));
    let c0 = PC::<P>::new(0).without_witnesses();
    let vk = flat(guard(|| keygen_vk(&params, &c0)));
    out.insert("vkres".into(), res(&vk));
    let Ok(vk) = vk else { return J::Object(out) };
    let pin = format!("{:?}", vk.pinned());
    out.insert("vk".into(), json!({"pinned": pin}));
    let pk = flat(guard(|| keygen_pk(&params, vk.clone(), &c0)));
    let Ok(pk) = pk else { return J::Object(out) };
    let mut sets = vec![];
    for s in arr(&case["sets"]) {
        let vs: Vec<usize> = arr(&s).iter().map(|x| u(x) as usize).collect();
        let circuits: Vec<PC<P>> = vs.iter().map(|v| PC::<P>::new(*v)).collect();
        let insts: Vec<Vec<Vec<F>>> = vs.iter().map(|v| p.instances(*v)).collect();
        let iv: Vec<Vec<&[F]>> = insts.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect();
        let ir: Vec<&[&[F]]> = iv.iter().map(|p| &p[..]).collect();
        let mut o = study(u(&case["seed"]), u(&case["threads2"]) as usize, |rng, t| create_proof(&params, &pk, &circuits, &ir, rng, t));
        o["vs"] = json!(vs);
        sets.push(o);
    }
    out.insert("sets".into(), J::Array(sets));
    J::Object(out)
}

/// The openings on their own: nothing but their own randomness hides the polynomials.
fn opening(case: &J) -> J {
    let k = u(&case["k"]) as u32;
    let params = Params::<C>::new(k);
    let dom = EvaluationDomain::<F>::new(1, k);
    let polys: Vec<Polynomial<F, Coeff>> = arr(&case["polys"]).iter().map(|p| dom.coeff_from_vec(fs(p))).collect();
    let blinds: Vec<Blind<F>> = fs(&case["blinds"]).into_iter().map(Blind).collect();
    let points = fs(&case["points"]);
    let q: Vec<(usize, usize)> = arr(&case["queries"]).iter().map(|x| (u(&x[0]) as usize, u(&x[1]) as usize)).collect();
    let multi = study(u(&case["seed"]), u(&case["threads2"]) as usize, |rng, t| {
        let qs: Vec<ProverQuery<C>> = q.iter().map(|(p, x)| ProverQuery { point: points[*x], poly: &polys[*p], blind: blinds[*p] }).collect();
        Ok(multiopen::create_proof(&params, rng, t, qs.iter().cloned())?)
    });
    let single = study(u(&case["seed"]), u(&case["threads2"]) as usize, |rng, t| Ok(commitment::create_proof(&params, rng, t, &polys[0], blinds[0], points[0])?));
    json!({"id": case["id"], "params": params_dlogs(&params), "sets": [multi, single]})
}
