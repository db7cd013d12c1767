//! `msm`, `ipa`, `open` and `params` commands: the commitment layer over the transparent curve.
use ff::{Field, PrimeField};
use group::Curve;
use halo2_proofs::poly::commitment::{self, Blind, Params, MSM};
use halo2_proofs::poly::multiopen::{self, ProverQuery, VerifierQuery};
use halo2_proofs::poly::{Coeff, EvaluationDomain, Polynomial};
use halo2_proofs::transcript::*;
use halo2_proofs::plonk::Error;
use serde_json::{json, Value as J};

use crate::circ::{errs, flat, guard, params_dlogs, res};
use crate::field::*;
use crate::prog::F;
use crate::rec::*;

type C = ABB;

pub fn u(j: &J) -> u64 {
    j.as_u64().unwrap_or_else(|| panic!("bad number {j}"))
}
pub fn fs(j: &J) -> Vec<F> {
    j.as_array().unwrap().iter().map(|x| F::from(u(x))).collect()
}
pub fn arr(j: &J) -> Vec<J> {
    j.as_array().cloned().unwrap_or_default()
}
pub fn nums(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| x.get()).collect()
}

pub fn with_threads<T: Send>(case: &J, f: impl FnOnce() -> T + Send) -> T {
    match case["threads"].as_u64() {
        Some(t) => rayon::ThreadPoolBuilder::new().num_threads(t as usize).build().unwrap().install(f),
        None => f(),
    }
}

pub fn params(case: &J) -> J {
    let k = u(&case["k"]) as u32;
    let run = || {
        let p = Params::<C>::new(k);
        let mut b = vec![];
        p.write(&mut b).unwrap();
        (p, b)
    };
    let (p, b) = with_threads(case, run);
    let back = Params::<C>::read(&mut &b[..]);
    let mut b2 = vec![];
    let rt = match &back {
        Ok(q) => {
            q.write(&mut b2).unwrap();
            q.k() == k && q.get_g() == p.get_g()
        }
        Err(_) => false,
    };
    let g: Vec<u64> = p.get_g().iter().map(|x| x.0.get()).collect();
    // every strict prefix must be refused
    let mut short = 0;
    for cut in [0, 3, 4, 5, 35, 36, b.len() / 2, b.len() - 33, b.len() - 32, b.len() - 1] {
        if cut < b.len() {
            match guard(|| Params::<C>::read(&mut &b[..cut]).is_err()) {
                Ok(true) => {}
                _ => short += 1,
            }
        }
    }
    json!({"id": case["id"], "params": params_dlogs(&p), "g": g, "roundtrip": rt && b == b2, "short": short, "kk": p.k(), "len": b.len()})
}

/// Replay of an operation sequence over several accumulators.  After each step the expected
/// value of every accumulator is probed.
pub fn msm(case: &J) -> J {
    let params = Params::<C>::new(u(&case["k"]) as u32);
    let mut m: Vec<MSM<C>> = (0..u(&case["n"])).map(|_| params.empty_msm()).collect();
    let mut bad = vec![];
    // a point that no operation ever uses, to probe the value held
    let probe = |m: &MSM<C>, t: u64| -> bool {
        let mut x = m.clone();
        let q = F::from(1234567);
        x.append_term(-(F::from(t) * q.invert().unwrap()), ABB(q));
        x.eval()
    };
    for (i, s) in arr(&case["ops"]).iter().enumerate() {
        let r = guard(|| {
            let a = u(&s[1]) as usize;
            match s[0].as_str().unwrap() {
                "term" => m[a].append_term(F::from(u(&s[2])), ABB(F::from(u(&s[3])))),
                "const" => m[a].add_constant_term(F::from(u(&s[2]))),
                "g" => m[a].add_to_g_scalars(&fs(&s[2])),
                "w" => m[a].add_to_w_scalar(F::from(u(&s[2]))),
                "u" => m[a].add_to_u_scalar(F::from(u(&s[2]))),
                "scale" => m[a].scale(F::from(u(&s[2]))),
                "merge" => {
                    let o = m[u(&s[2]) as usize].clone();
                    m[a].add_msm(&o)
                }
                x => panic!("bad op {x}"),
            }
        });
        if let Err(e) = r {
            bad.push(json!([i, "panic", e]));
            break;
        }
        for (j, w) in arr(&s[s.as_array().unwrap().len() - 1]).iter().enumerate() {
            let w = u(w);
            let got = guard(|| {
                let e = m[j].clone().eval();
                (e, probe(&m[j], w), probe(&m[j], (w + 1) % F::P))
            });
            match got {
                Ok((e, hit, miss)) if e == (w == 0) && hit && !miss => {}
                g => bad.push(json!([i, j, format!("{g:?}")])),
            }
        }
        if !bad.is_empty() {
            break;
        }
    }
    json!({"id": case["id"], "bad": bad})
}

fn tamper(bytes: &[u8], t: &J) -> Vec<u8> {
    let mut b = bytes.to_vec();
    let nw = b.len() / 32;
    let w = |i: &J| (u(i) as usize) % nw;
    match t[0].as_str().unwrap() {
        "add" => {
            let i = w(&t[1]);
            let mut rp = [0u8; 32];
            rp.copy_from_slice(&b[32 * i..32 * i + 32]);
            let x = BB::from_repr(rp).unwrap() + F::from(u(&t[2]));
            b[32 * i..32 * i + 32].copy_from_slice(&x.to_repr());
        }
        "swap" => {
            let (i, j) = (w(&t[1]), w(&t[2]));
            for k in 0..32 {
                b.swap(32 * i + k, 32 * j + k);
            }
        }
        "cut" => b.truncate(b.len() - (1 + u(&t[1]) as usize % b.len())),
        _ => {}
    }
    b
}

pub fn ipa(case: &J) -> J {
    with_threads(case, || ipa_(case))
}
fn ipa_(case: &J) -> J {
    let k = u(&case["k"]) as u32;
    let params = Params::<C>::new(k);
    let dom = EvaluationDomain::<F>::new(1, k);
    let (lag, poly): (_, Polynomial<F, Coeff>) = {
        let l = dom.lagrange_from_vec(fs(&case["values"]));
        (l.clone(), dom.lagrange_to_coeff(l))
    };
    let blind = Blind(F::from(u(&case["blind"])));
    let x = F::from(u(&case["x"]));
    let cc = params.commit(&poly, blind).to_affine();
    let cl = params.commit_lagrange(&lag, blind).to_affine();
    let v = halo2_proofs::arithmetic::eval_polynomial(&poly, x);
    let mut t = Rt::new(Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]));
    let pr = flat(guard(|| {
        t.common_point(cc)?;
        t.common_scalar(v)?;
        t.common_scalar(x)?;
        commitment::create_proof(&params, Rng(u(&case["seed"])), &mut t, &poly, blind, x)?;
        Ok(())
    }));
    let pev = t.ev.clone();
    let bytes = t.t.finalize();
    let mut runs = vec![];
    for m in std::iter::once(json!(["none"])).chain(arr(&case["muts"])) {
        let (mut c2, mut v2, mut x2, mut b2) = (cc, v, x, bytes.clone());
        match m[0].as_str().unwrap() {
            "v" => v2 += F::from(u(&m[1])),
            "x" => x2 += F::from(u(&m[1])),
            "c" => c2 = (c2 + ABB(F::from(u(&m[1])))).to_affine(),
            _ => b2 = tamper(&b2, &m),
        }
        if pr.is_err() {
            break;
        }
        let mut vt = Rt::new(Blake2bRead::<_, C, Challenge255<C>>::init(&b2[..]));
        let mut extra = json!({});
        let r = flat(guard(|| {
            vt.common_point(c2)?;
            vt.common_scalar(v2)?;
            vt.common_scalar(x2)?;
            let mut msm = params.empty_msm();
            msm.append_term(F::ONE, c2);
            let g = commitment::verify_proof(&params, msm, &mut vt, x2, v2).map_err(|_| Error::Opening)?;
            let gg = g.compute_g();
            let ok = g.clone().use_challenges().eval();
            let (m1, acc) = g.clone().use_g(gg);
            let (m2, _) = g.clone().use_g((gg + ABB(F::from(7))).to_affine());
            extra = json!({"g": gg.0.get(), "useg": m1.eval(), "accg": acc.g.0.get(), "wrongg": m2.eval(), "packed": acc.u_packed.iter().map(|e| e.get_scalar().get()).collect::<Vec<_>>()});
            Ok(ok)
        }));
        let ev = std::mem::take(&mut vt.ev);
        runs.push(json!({"m": m[0], "res": match &r { Ok(true) => "ok".to_string(), Ok(false) => "rejected".into(), Err(e) => e.clone() }, "ev": evj(&ev), "x": extra}));
    }
    json!({"id": case["id"], "params": params_dlogs(&params), "cc": cc.0.get(), "cl": cl.0.get(), "coeffs": nums(&poly), "v": v.get(),
        "pres": res(&pr), "pev": evj(&pev), "runs": runs})
}

pub fn open(case: &J) -> J {
    with_threads(case, || open_(case))
}
fn open_(case: &J) -> J {
    let k = u(&case["k"]) as u32;
    let params = Params::<C>::new(k);
    let dom = EvaluationDomain::<F>::new(1, k);
    let polys: Vec<Polynomial<F, Coeff>> = arr(&case["polys"]).iter().map(|p| dom.coeff_from_vec(fs(p))).collect();
    let blinds: Vec<Blind<F>> = fs(&case["blinds"]).into_iter().map(Blind).collect();
    let points = fs(&case["points"]);
    let q: Vec<(usize, usize)> = arr(&case["queries"]).iter().map(|x| (u(&x[0]) as usize, u(&x[1]) as usize)).collect();
    let viamsm: Vec<bool> = arr(&case["msm"]).iter().map(|x| x.as_bool().unwrap()).collect();
    let coms: Vec<C> = polys.iter().zip(&blinds).map(|(p, b)| params.commit(p, *b).to_affine()).collect();
    let evals: Vec<F> = q.iter().map(|(p, x)| halo2_proofs::arithmetic::eval_polynomial(&polys[*p], points[*x])).collect();
    let mut t = Rt::new(Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]));
    let pr = flat(guard(|| {
        let qs: Vec<ProverQuery<C>> = q.iter().map(|(p, x)| ProverQuery { point: points[*x], poly: &polys[*p], blind: blinds[*p] }).collect();
        multiopen::create_proof(&params, Rng(u(&case["seed"])), &mut t, qs.iter().cloned())?;
        Ok(())
    }));
    let pev = t.ev.clone();
    let bytes = t.t.finalize();
    let mut runs = vec![];
    for m in std::iter::once(json!(["none"])).chain(arr(&case["muts"])) {
        let (mut c2, mut e2, mut b2) = (coms.clone(), evals.clone(), bytes.clone());
        let mut p2: Vec<F> = q.iter().map(|(_, x)| points[*x]).collect();
        match m[0].as_str().unwrap() {
            "eval" => {
                let i = u(&m[1]) as usize % q.len();
                e2[i] += F::from(u(&m[2]))
            }
            "point" => {
                let i = u(&m[1]) as usize % q.len();
                p2[i] += F::from(u(&m[2]))
            }
            "com" => {
                let i = q[u(&m[1]) as usize % q.len()].0;
                c2[i] = (c2[i] + ABB(F::from(u(&m[2])))).to_affine()
            }
            "none" => {}
            _ => {
                if pr.is_err() {
                    continue;
                }
                b2 = tamper(&b2, &m)
            }
        }
        let msms: Vec<MSM<C>> = c2
            .iter()
            .map(|c| {
                // the same commitment as a combination of two terms
                let mut x = params.empty_msm();
                x.append_term(F::from(3), *c);
                x.append_term(-F::from(2), *c);
                x
            })
            .collect();
        let mut vt = Rt::new(Blake2bRead::<_, C, Challenge255<C>>::init(&b2[..]));
        let r = flat(guard(|| {
            let qs: Vec<VerifierQuery<C>> = q
                .iter()
                .enumerate()
                .map(|(i, (p, _))| {
                    if viamsm[*p] {
                        VerifierQuery::new_msm(&msms[*p], p2[i], e2[i])
                    } else {
                        VerifierQuery::new_commitment(&c2[*p], p2[i], e2[i])
                    }
                })
                .collect();
            let g = multiopen::verify_proof(&params, &mut vt, qs.iter().cloned(), params.empty_msm()).map_err(|_| Error::Opening)?;
            Ok(g.use_challenges().eval())
        }));
        let ev = std::mem::take(&mut vt.ev);
        runs.push(json!({"m": m[0], "res": match &r { Ok(true) => "ok".to_string(), Ok(false) => "rejected".into(), Err(e) => e.clone() }, "ev": evj(&ev),
            "coms": c2.iter().map(|c| c.0.get()).collect::<Vec<_>>(), "evals": nums(&e2), "pts": nums(&p2)}));
    }
    let _ = errs;
    json!({"id": case["id"], "params": params_dlogs(&params), "coms": coms.iter().map(|c| c.0.get()).collect::<Vec<_>>(), "evals": nums(&evals),
        "pres": res(&pr), "pev": evj(&pev), "runs": runs})
}
