//! `batch` and `predict` commands: batches of real proofs through BatchVerifier.
use std::collections::HashMap;
use std::marker::PhantomData;

use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use halo2_proofs::arithmetic::CurveAffine;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::Params;
use halo2_proofs::poly::Rotation;
use halo2_proofs::transcript::*;
use serde_json::{json, Value as J};

use crate::circ::{flat, guard};
use crate::field::*;
use crate::poly::{arr, u};
use crate::rec::Rng;

/// public[0] = a * b
#[derive(Clone)]
struct Tiny<F>(u64, u64, PhantomData<F>);
#[derive(Clone)]
struct TCfg(Column<Advice>, Selector, Column<Instance>);
impl<F: PrimeField> Circuit<F> for Tiny<F> {
    type Config = TCfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(m: &mut ConstraintSystem<F>) -> TCfg {
        let a = m.advice_column();
        let i = m.instance_column();
        let s = m.selector();
        m.enable_equality(a);
        m.enable_equality(i);
        m.create_gate("mul", |vc| {
            let s = vc.query_selector(s);
            let (x, y, z) = (vc.query_advice(a, Rotation(-1)), vc.query_advice(a, Rotation(0)), vc.query_advice(a, Rotation(1)));
            vec![s * (x * y - z)]
        });
        TCfg(a, s, i)
    }
    fn synthesize(&self, c: TCfg, mut l: impl Layouter<F>) -> Result<(), Error> {
        let z = l.assign_region(
            || "r",
            |mut r| {
                c.1.enable(&mut r, 1)?;
                r.assign_advice(|| "a", c.0, 0, || Value::known(F::from(self.0)))?;
                r.assign_advice(|| "b", c.0, 1, || Value::known(F::from(self.1)))?;
                r.assign_advice(|| "c", c.0, 2, || Value::known(F::from(self.0) * F::from(self.1)))
            },
        )?;
        l.constrain_instance(z.cell(), c.2, 0)
    }
}

struct Env<C: CurveAffine> {
    params: Params<C>,
    pk: ProvingKey<C>,
    /// instances and proof bytes of the base proofs
    base: Vec<(Vec<Vec<Vec<C::Scalar>>>, Vec<u8>)>,
}
impl<C: CurveAffine> Env<C>
where
    C::Scalar: FromUniformBytes<64> + WithSmallOrderMulGroup<3> + PrimeField<Repr = [u8; 32]>,
{
    fn new(k: u32, shapes: &[J], seed: u64) -> Self {
        let params = Params::<C>::new(k);
        let t = Tiny::<C::Scalar>(1, 1, PhantomData);
        let vk = keygen_vk(&params, &t).unwrap();
        let pk = keygen_pk(&params, vk, &t).unwrap();
        let mut rng = Rng(seed);
        let base = shapes
            .iter()
            .map(|n| {
                let cs: Vec<_> = (0..u(n)).map(|_| Tiny::<C::Scalar>(rng.below(1 << 20) + 2, rng.below(1 << 20) + 2, PhantomData)).collect();
                let ins: Vec<Vec<Vec<C::Scalar>>> = cs.iter().map(|c| vec![vec![C::Scalar::from(c.0) * C::Scalar::from(c.1)]]).collect();
                let mut tr = Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]);
                let iv: Vec<Vec<&[C::Scalar]>> = ins.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect();
                let ir: Vec<&[&[C::Scalar]]> = iv.iter().map(|p| &p[..]).collect();
                create_proof(&params, &pk, &cs, &ir, Rng(rng.next()), &mut tr).unwrap();
                (ins, tr.finalize())
            })
            .collect();
        Env { params, pk, base }
    }
    fn item(&self, b: usize, kind: &str, arg: i64) -> (Vec<Vec<Vec<C::Scalar>>>, Vec<u8>) {
        let (mut ins, mut pf) = self.base[b % self.base.len()].clone();
        let n = pf.len();
        let d = if arg < 0 { -C::Scalar::from(-arg as u64) } else { C::Scalar::from(arg as u64) };
        match kind {
            "ok" => {}
            // shift the opening's last scalar: the final check is off by a known multiple of w
            "shift" => {
                let mut r = [0u8; 32];
                r.copy_from_slice(&pf[n - 32..]);
                let x = C::Scalar::from_repr(r).unwrap() + d;
                pf[n - 32..].copy_from_slice(&x.to_repr());
            }
            "cut" => pf.truncate(n - 1 - arg as usize % n),
            "none" => pf.clear(),
            "tail" => pf.extend_from_slice(&[7; 33]),
            "canon" => pf[n - 32..].copy_from_slice(&[0xff; 32]),
            "value" => {
                let l = ins.len() - 1;
                ins[l][0][0] += C::Scalar::ONE
            }
            "extra" => ins[0].push(vec![]),
            "fewer" => {
                ins[0].pop();
            }
            "long" => ins[0][0] = vec![C::Scalar::ONE; 1 << self.params.k()],
            "circuits" => {
                let x = ins[0].clone();
                ins.push(x)
            }
            x => panic!("bad kind {x}"),
        }
        (ins, pf)
    }
    fn single(&self, it: &(Vec<Vec<Vec<C::Scalar>>>, Vec<u8>)) -> Result<(), String> {
        let iv: Vec<Vec<&[C::Scalar]>> = it.0.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect();
        let ir: Vec<&[&[C::Scalar]]> = iv.iter().map(|p| &p[..]).collect();
        let mut t = Blake2bRead::<_, C, Challenge255<C>>::init(&it.1[..]);
        flat(guard(|| verify_proof(&self.params, self.pk.get_vk(), SingleVerifier::new(&self.params), &ir, &mut t)))
    }
    fn batch(&self, items: Vec<(Vec<Vec<Vec<C::Scalar>>>, Vec<u8>)>) -> Result<bool, String> {
        guard(|| {
            let mut b = BatchVerifier::<C>::new();
            for (i, p) in items {
                b.add_proof(i, p);
            }
            b.finalize(&self.params, self.pk.get_vk())
        })
    }
}
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.below(u64::MAX)
    }
}

pub fn run(case: &J) -> J {
    let env = Env::<ABB>::new(u(&case["k"]) as u32, &arr(&case["shapes"]), u(&case["seed"]));
    let pools: HashMap<u64, rayon::ThreadPool> =
        arr(&case["threads"]).iter().map(|t| (u(t), rayon::ThreadPoolBuilder::new().num_threads(u(t) as usize).build().unwrap())).collect();
    let mut seen: HashMap<String, bool> = HashMap::new();
    let mut out = vec![];
    for b in arr(&case["batches"]) {
        let items: Vec<(usize, String, i64)> =
            arr(&b).iter().map(|i| (u(&i[0]) as usize, i[1].as_str().unwrap().to_string(), i[2].as_i64().unwrap())).collect();
        let mk = || items.iter().map(|(b, k, a)| env.item(*b, k, *a)).collect::<Vec<_>>();
        let single: Vec<bool> = items
            .iter()
            .map(|(b, k, a)| *seen.entry(format!("{b} {k} {a}")).or_insert_with(|| env.single(&env.item(*b, k, *a)).is_ok()))
            .collect();
        let got: Vec<J> = arr(&case["threads"])
            .iter()
            .map(|t| {
                let its = mk();
                match pools[&u(t)].install(|| env.batch(its)) {
                    Ok(b) => json!(b),
                    Err(e) => json!(e),
                }
            })
            .collect();
        out.push(json!({"single": single, "got": got}));
    }
    json!({"id": case["id"], "out": out})
}

/// Over a field of 7681 elements: look for a second shift that makes a batch of two bad proofs
/// pass once, then see whether it passes again (it must not: fresh randomness every time).
pub fn predict(case: &J) -> J {
    let mut seed = u(&case["seed"]);
    let env = loop {
        assert!(seed < u(&case["seed"]) + 200, "no accepted proofs");
        if let Ok(e) = guard(|| Env::<A7681>::new(4, &[json!(1), json!(1)], seed)) {
            if (0..2).all(|i| e.single(&e.item(i, "ok", 0)).is_ok()) {
                break e;
            }
        }
        seed += 1;
    };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    pool.install(|| {
        let mk = |d: i64| {
            let mut v = vec![env.item(0, "shift", 1), env.item(1, "shift", d)];
            if case["flip"].as_bool() == Some(true) {
                v.reverse();
            }
            v
        };
        let mut hits = vec![];
        for d in 1..7681 {
            if let Ok(true) = env.batch(mk(d)) {
                let again = (0..24).filter(|_| env.batch(mk(d)) == Ok(true)).count();
                hits.push(json!([d, again]));
                if again > 1 {
                    break;
                }
            }
        }
        json!({"id": case["id"], "hits": hits})
    })
}
