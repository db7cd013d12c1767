//! `arith` command: the arithmetic toolbox at given thread counts.
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::{Curve, Group};
use halo2_proofs::arithmetic::*;
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use pasta_curves::{pallas, vesta};
use serde_json::{json, Value as J};

use crate::circ::guard;
use crate::field::*;
use crate::poly::{arr, fs, nums, u, with_threads};
use crate::prog::F;

pub fn hex<T: PrimeField>(x: &T) -> String {
    let r = x.to_repr();
    let s: String = r.as_ref().iter().rev().map(|b| format!("{b:02x}")).collect();
    let s = s.trim_start_matches('0');
    if s.is_empty() { "0".into() } else { s.into() }
}
pub fn unhex<T: PrimeField>(s: &str) -> T {
    let mut a = T::ZERO;
    for c in s.chars() {
        a = a * T::from(16) + T::from(c.to_digit(16).expect("hex digit") as u64);
    }
    a
}
fn hpt<C: CurveAffine>(p: C) -> J
where
    C::Base: PrimeField,
{
    match Option::from(p.coordinates()) {
        Some(c) => {
            let c: Coordinates<C> = c;
            json!([hex(c.x()), hex(c.y())])
        }
        None => json!([]),
    }
}

fn msm_real<C: CurveAffine>(op: &J) -> J
where
    C::Base: PrimeField,
{
    let cs: Vec<C::Scalar> = arr(&op["c"]).iter().map(|x| unhex(x.as_str().unwrap())).collect();
    let bs: Vec<C> = arr(&op["m"]).iter().map(|x| (C::Curve::generator() * C::Scalar::from(u(x))).to_affine()).collect();
    let r = best_multiexp(&cs, &bs).to_affine();
    let s = small_multiexp(&cs, &bs).to_affine();
    json!([bs.iter().map(|b| hpt(*b)).collect::<Vec<_>>(), hpt(r), hpt(s)])
}

/// many terms: scalars and multiples of the generator repeat with the periods of the given lists
fn msm_big<C: CurveAffine>(op: &J) -> J
where
    C::Base: PrimeField,
{
    let cs: Vec<C::Scalar> = arr(&op["c"]).iter().map(|x| unhex(x.as_str().unwrap())).collect();
    let bs: Vec<C> = arr(&op["m"]).iter().map(|x| (C::Curve::generator() * C::Scalar::from(u(x))).to_affine()).collect();
    let n = u(&op["n"]) as usize;
    let c: Vec<_> = (0..n).map(|i| cs[i % cs.len()]).collect();
    let b: Vec<_> = (0..n).map(|i| bs[i % bs.len()]).collect();
    json!([hpt(C::generator()), hpt(best_multiexp(&c, &b).to_affine())])
}

fn rot(j: &J) -> Rotation {
    Rotation(j.as_i64().unwrap() as i32)
}

fn one(op: &J) -> J {
    let name = op["op"].as_str().unwrap();
    let dom = || EvaluationDomain::<F>::new(u(&op["j"]) as u32, u(&op["k"]) as u32);
    let lag = |d: &EvaluationDomain<F>, x: &J| d.lagrange_from_vec(fs(x));
    let ext = |d: &EvaluationDomain<F>, x: &J| {
        let mut e = d.empty_extended();
        for (e, v) in e.iter_mut().zip(fs(x)) {
            *e = v;
        }
        e
    };
    match name {
        "fft" => {
            let mut a = fs(&op["a"]);
            best_fft(&mut a, F::from(u(&op["w"])), u(&op["k"]) as u32);
            json!(nums(&a))
        }
        "fftg" => {
            let mut a: Vec<CBB> = fs(&op["a"]).into_iter().map(CBB).collect();
            best_fft(&mut a, F::from(u(&op["w"])), u(&op["k"]) as u32);
            json!(a.iter().map(|p| p.0.get()).collect::<Vec<_>>())
        }
        "msm" => {
            let c = fs(&op["c"]);
            let b: Vec<ABB> = fs(&op["m"]).into_iter().map(ABB).collect();
            json!([best_multiexp(&c, &b).0.get(), small_multiexp(&c, &b).0.get()])
        }
        "pallasbig" => msm_big::<pallas::Affine>(op),
        "vestabig" => msm_big::<vesta::Affine>(op),
        "pallas" => msm_real::<pallas::Affine>(op),
        "vesta" => msm_real::<vesta::Affine>(op),
        "eval" => json!(eval_polynomial(&fs(&op["a"]), F::from(u(&op["x"]))).get()),
        "inner" => json!(compute_inner_product(&fs(&op["a"]), &fs(&op["b"])).get()),
        "kate" => json!(nums(&kate_division(&fs(&op["a"]), F::from(u(&op["x"]))))),
        "interp" => json!(nums(&lagrange_interpolate(&fs(&op["x"]), &fs(&op["y"])))),
        "par" => {
            let mut v = vec![0u64; u(&op["n"]) as usize];
            parallelize(&mut v, |c, start| {
                for (i, x) in c.iter_mut().enumerate() {
                    *x += (start + i + 1) as u64;
                }
            });
            json!(v)
        }
        "dom" => {
            let d = dom();
            let rots: Vec<u64> = arr(&op["r"]).iter().map(|r| d.rotate_omega(F::from(u(&op["x"])), rot(r)).get()).collect();
            let x = F::from(u(&op["x"]));
            let li = d.l_i_range(x, x.pow_vartime([1u64 << u(&op["k"])]), arr(&op["r"]).iter().map(|r| r.as_i64().unwrap() as i32).collect::<Vec<_>>());
            let c = F::from(u(&op["x"]));
            json!([d.get_omega().get(), d.get_omega_inv().get(), d.get_extended_omega().get(), d.extended_len(),
                   d.get_quotient_poly_degree(), rots, nums(&li), F::ZETA.get(),
                   nums(&d.constant_lagrange(c)), nums(&d.constant_extended(c)), d.empty_coeff().num_coeffs(), d.empty_lagrange().num_coeffs(),
                   nums(&d.empty_extended()), d.coeff_from_vec(vec![c; 1 << u(&op["k"])]).num_coeffs()])
        }
        "l2c" => {
            let d = dom();
            json!(nums(&d.lagrange_to_coeff(lag(&d, &op["a"]))))
        }
        "c2e" => {
            let d = dom();
            json!(nums(&d.coeff_to_extended(d.coeff_from_vec(fs(&op["a"])))))
        }
        "e2c" => {
            let d = dom();
            json!(nums(&d.extended_to_coeff(ext(&d, &op["a"]))))
        }
        "rote" => {
            let d = dom();
            json!(nums(&d.rotate_extended(&ext(&d, &op["a"]), rot(&op["r"]))))
        }
        "van" => {
            let d = dom();
            json!(nums(&d.divide_by_vanishing_poly(ext(&d, &op["a"]))))
        }
        "rotl" => {
            let d = dom();
            json!(nums(&lag(&d, &op["a"]).rotate(rot(&op["r"]))))
        }
        "lin" => {
            let d = dom();
            json!(nums(&(lag(&d, &op["a"]) * F::from(u(&op["x"])) + &lag(&d, &op["b"]))))
        }
        x => panic!("unknown op {x}"),
    }
}

pub fn run(case: &J) -> J {
    with_threads(case, || {
        let out: Vec<J> = arr(&case["ops"])
            .iter()
            .map(|op| match guard(|| one(op)) {
                Ok(x) => json!({"ok": x}),
                Err(e) => json!({"panic": e}),
            })
            .collect();
        json!({"id": case["id"], "out": out})
    })
}
