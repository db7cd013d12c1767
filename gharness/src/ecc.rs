//! Elliptic curve gadgets over Pallas.
use std::convert::TryInto;
use std::marker::PhantomData;
use std::sync::OnceLock;

use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use halo2_gadgets::ecc::chip::{compute_lagrange_coeffs, find_zs_and_us, BaseFieldElem, EccChip, EccConfig, FixedPoint, FullScalar, ShortScalar, H, NUM_WINDOWS, NUM_WINDOWS_SHORT};
use halo2_gadgets::ecc::{FixedPointBaseField, FixedPointShort, FixedPoints, NonIdentityPoint, Point, ScalarFixed, ScalarFixedShort, ScalarVar};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig};
use halo2_gadgets::utilities::lookup_range_check::{LookupRangeCheck, PallasLookupRangeCheck, PallasLookupRangeCheck4_5BConfig, PallasLookupRangeCheckConfig};
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::*;
use pasta_curves::{arithmetic::CurveAffine, pallas};
use serde_json::{json, Value as J};

use crate::ext::*;

type Fp = pallas::Base;
type Fq = pallas::Scalar;

/// The second fixed base is this multiple of the first one (the generator).
pub const SECOND: u64 = 0x1234567;
pub fn base(i: usize) -> pallas::Affine {
    let g = pallas::Point::generator();
    if i == 1 { g.to_affine() } else { (g * Fq::from(SECOND)).to_affine() }
}

/// The points of a window, by their definition.
pub fn window(b: pallas::Affine, w: usize, n: usize) -> [pallas::Affine; H] {
    let pw = |e: usize| Fq::from(2).pow([e as u64]);
    (0..H as u64).map(|k| {
        let s = if w + 1 < n {
            Fq::from(k + 2) * pw(3 * w)
        } else {
            Fq::from(k) * pw(3 * w) - (0..n - 1).fold(Fq::ZERO, |a, j| a + pw(3 * j + 1))
        };
        (b * s).to_affine()
    }).collect::<Vec<_>>().try_into().unwrap()
}
fn ys(b: pallas::Affine, w: usize, n: usize) -> Vec<Fp> {
    window(b, w, n).iter().map(|p| *p.coordinates().unwrap().y()).collect()
}
/// The least z of each window, found once and kept in zs.json.
pub fn find(b: usize, n: usize) -> Vec<u64> {
    let b = base(b);
    let mut out = vec![0u64; n];
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(&mut out);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let w = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if w >= n {
                    return;
                }
                let y = ys(b, w, n);
                let z = (0u64..).find(|&z| y.iter().all(|y| bool::from((Fp::from(z) - y).sqrt().is_none()) && bool::from((Fp::from(z) + y).sqrt().is_some()))).unwrap();
                res.lock().unwrap()[w] = z;
            });
        }
    });
    out
}
type Zu = Vec<(u64, [Fp; H])>;
fn zu(b: usize, n: usize) -> &'static Zu {
    static T: OnceLock<Vec<Zu>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let z: J = serde_json::from_str(include_str!("../zs.json")).unwrap();
        [(1, NUM_WINDOWS), (2, NUM_WINDOWS), (1, NUM_WINDOWS_SHORT), (2, NUM_WINDOWS_SHORT)].iter().map(|&(b, n)| {
            let zs = z[format!("{b}_{n}")].as_array().unwrap();
            zs.iter().enumerate().map(|(w, z)| {
                let z = z.as_u64().unwrap();
                (z, ys(base(b), w, n).iter().map(|y| (Fp::from(z) + y).sqrt().unwrap()).collect::<Vec<_>>().try_into().unwrap())
            }).collect()
        }).collect()
    });
    &t[(b - 1) + if n == NUM_WINDOWS { 0 } else { 2 }]
}

#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Bases;
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Full(pub usize);
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Short(pub usize);
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct BaseElem(pub usize);
macro_rules! fixed {
    ($t:ident, $k:ident, $n:ident) => {
        impl FixedPoint<pallas::Affine> for $t {
            type FixedScalarKind = $k;
            fn generator(&self) -> pallas::Affine {
                base(self.0)
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                zu(self.0, $n).iter().map(|(_, us)| us.map(|x| x.to_repr())).collect()
            }
            fn z(&self) -> Vec<u64> {
                zu(self.0, $n).iter().map(|x| x.0).collect()
            }
        }
    };
}
fixed!(Full, FullScalar, NUM_WINDOWS);
fixed!(Short, ShortScalar, NUM_WINDOWS_SHORT);
fixed!(BaseElem, BaseFieldElem, NUM_WINDOWS);
impl FixedPoints<pallas::Affine> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = BaseElem;
}

/// The fixed tables, to be compared with their definition.
pub fn tables(c: &J) -> J {
    let xy = |p: &pallas::Affine| {
        let c = p.coordinates().unwrap();
        json!([hex(c.x()), hex(c.y())])
    };
    let (b, n) = (u(&c["base"]), u(&c["n"]));
    let coeffs = compute_lagrange_coeffs(base(b), n);
    let from = u(&c["from"]);
    let to = u(&c["to"]);
    let found: Vec<J> = if c["find"].as_bool() == Some(true) {
        find_zs_and_us(base(b), n).unwrap().iter().map(|(z, us)| json!([format!("{z:x}"), us.iter().map(hex).collect::<Vec<_>>()])).collect()
    } else {
        zu(b, n)[from..to].iter().map(|(z, us)| json!([format!("{z:x}"), us.iter().map(hex).collect::<Vec<_>>()])).collect()
    };
    json!({"id": c["id"], "base": xy(&base(b)),
        "coeffs": coeffs[from..to].iter().map(|c| c.iter().map(hex).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "points": (from..to).map(|w| window(base(b), w, n).iter().map(xy).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "zu": found, "nw": [NUM_WINDOWS, NUM_WINDOWS_SHORT], "second": SECOND})
}

pub fn point(j: &J) -> pallas::Affine {
    let v: Vec<Fp> = fes(j);
    if v.is_empty() { pallas::Affine::identity() } else { pallas::Affine::from_xy(v[0], v[1]).unwrap() }
}
/// A range check configuration together with the table it needs.
pub trait RC: PallasLookupRangeCheck {
    type T: Copy;
    fn conf(meta: &mut ConstraintSystem<Fp>, z: Column<Advice>) -> (Self, Self::T);
    fn load(t: Self::T, l: &mut impl Layouter<Fp>) -> Result<(), Error>;
    fn idx(t: Self::T) -> TableColumn;
}
impl RC for PallasLookupRangeCheckConfig {
    type T = TableColumn;
    fn conf(meta: &mut ConstraintSystem<Fp>, z: Column<Advice>) -> (Self, Self::T) {
        let t = meta.lookup_table_column();
        (LookupRangeCheck::configure(meta, z, t), t)
    }
    fn idx(t: TableColumn) -> TableColumn {
        t
    }
    fn load(c: TableColumn, l: &mut impl Layouter<Fp>) -> Result<(), Error> {
        l.assign_table(|| "table", |mut t| {
            for i in 0..1024u64 {
                t.assign_cell(|| "t", c, i as usize, || Value::known(Fp::from(i)))?;
            }
            Ok(())
        })
    }
}
impl RC for PallasLookupRangeCheck4_5BConfig {
    type T = (TableColumn, TableColumn);
    fn conf(meta: &mut ConstraintSystem<Fp>, z: Column<Advice>) -> (Self, Self::T) {
        let t = meta.lookup_table_column();
        let g = meta.lookup_table_column();
        (PallasLookupRangeCheck4_5BConfig::configure_with_tag(meta, z, t, g), (t, g))
    }
    fn idx(t: Self::T) -> TableColumn {
        t.0
    }
    fn load(c: Self::T, l: &mut impl Layouter<Fp>) -> Result<(), Error> {
        l.assign_table(|| "table", |mut t| {
            let mut row = 0;
            for (tag, bits) in [(0u64, 10), (4, 4), (5, 5)] {
                for i in 0..(1u64 << bits) {
                    t.assign_cell(|| "t", c.0, row, || Value::known(Fp::from(i)))?;
                    t.assign_cell(|| "g", c.1, row, || Value::known(Fp::from(tag)))?;
                    row += 1;
                }
            }
            Ok(())
        })
    }
}

type Cell = AssignedCell<Fp, Fp>;
pub type Pt<L> = Point<pallas::Affine, EccChip<Bases, L>>;
pub type Ni<L> = NonIdentityPoint<pallas::Affine, EccChip<Bases, L>>;
enum P<L: RC> {
    N(Ni<L>),
    A(Pt<L>),
}
impl<L: RC> P<L> {
    fn any(&self) -> Pt<L> {
        match self {
            P::N(p) => p.clone().into(),
            P::A(p) => p.clone(),
        }
    }
    fn ni(&self) -> &Ni<L> {
        match self {
            P::N(p) => p,
            P::A(_) => panic!("not a non-identity point"),
        }
    }
}

pub fn put<L: RC>(l: &mut impl Layouter<Fp>, io: &Io, p: &Pt<L>) -> Result<(), Error> {
    io.put(l, "x", &p.inner().x())?;
    io.put(l, "y", &p.inner().y())
}
fn pt<L: RC>(chip: &EccChip<Bases, L>, l: &mut impl Layouter<Fp>, io: &Io, known: bool, j: &J, n: bool) -> Result<P<L>, Error> {
    let v = if known { Value::known(point(j)) } else { Value::unknown() };
    let p = if n {
        P::N(Ni::<L>::new(chip.clone(), l.namespace(|| "point"), v)?)
    } else {
        P::A(Pt::<L>::new(chip.clone(), l.namespace(|| "point"), v)?)
    };
    put(l, io, &p.any())?;
    Ok(p)
}

pub struct Ecc<L>(PhantomData<L>);
impl<L> Default for Ecc<L> {
    fn default() -> Self {
        Ecc(PhantomData)
    }
}
impl<L: RC> Gadget<Fp> for Ecc<L> {
    type Config = (EccConfig<Bases, L>, CondSwapConfig, Column<Advice>, L::T);
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let adv = [(); 10].map(|_| meta.advice_column());
        let x = meta.advice_column();
        meta.enable_equality(x);
        let lag = [(); 8].map(|_| meta.fixed_column());
        let (rc, t) = L::conf(meta, adv[9]);
        let ecc = EccChip::<Bases, L>::configure(meta, adv, lag, rc);
        let swap = CondSwapChip::configure(meta, adv[..5].try_into().unwrap());
        (ecc, swap, x, t)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<Fp>, known: bool) -> Result<(), Error> {
        <L as RC>::load(c.3, l)?;
        let chip = EccChip::<Bases, L>::construct(c.0);
        let swap = CondSwapChip::<Fp>::construct(c.1);
        let k = known;
        for op in case()["ops"].as_array().unwrap() {
            let v = &op["v"];
            let is_n = |i: usize| op["t"][i] == "n";
            match op["op"].as_str().unwrap() {
                "pt" => {
                    pt::<L>(&chip, l, &io, k, &v[0], false)?;
                }
                "nonid" => {
                    pt::<L>(&chip, l, &io, k, &v[0], true)?;
                }
                "const" => {
                    let p = Pt::<L>::new_from_constant(chip.clone(), l.namespace(|| "const"), point(&v[0]))?;
                    put(l, &io, &p)?;
                }
                "add" => {
                    let a = pt::<L>(&chip, l, &io, k, &v[0], is_n(0))?;
                    let b = pt::<L>(&chip, l, &io, k, &v[1], is_n(1))?;
                    let s = match (&a, &b) {
                        (P::N(a), P::N(b)) => a.add(l.namespace(|| "add"), b)?,
                        (P::N(a), P::A(b)) => a.add(l.namespace(|| "add"), b)?,
                        (P::A(a), P::N(b)) => a.add(l.namespace(|| "add"), b)?,
                        (P::A(a), P::A(b)) => a.add(l.namespace(|| "add"), b)?,
                    };
                    put(l, &io, &s)?;
                }
                "addself" => {
                    let a = pt::<L>(&chip, l, &io, k, &v[0], is_n(0))?;
                    let s = match &a {
                        P::N(a) => a.add(l.namespace(|| "add"), a)?,
                        P::A(a) => a.add(l.namespace(|| "add"), a)?,
                    };
                    put(l, &io, &s)?;
                }
                "addinc" => {
                    let a = pt::<L>(&chip, l, &io, k, &v[0], true)?;
                    let b = pt::<L>(&chip, l, &io, k, &v[1], true)?;
                    let s = a.ni().add_incomplete(l.namespace(|| "add"), b.ni())?;
                    put(l, &io, &s.into())?;
                }
                "eq" => {
                    let a = pt::<L>(&chip, l, &io, k, &v[0], is_n(0))?;
                    let b = pt::<L>(&chip, l, &io, k, &v[1], is_n(1))?;
                    match (&a, &b) {
                        (P::N(a), P::N(b)) => a.constrain_equal(l.namespace(|| "eq"), b)?,
                        (P::N(a), P::A(b)) => a.constrain_equal(l.namespace(|| "eq"), b)?,
                        (P::A(a), P::N(b)) => a.constrain_equal(l.namespace(|| "eq"), b)?,
                        (P::A(a), P::A(b)) => a.constrain_equal(l.namespace(|| "eq"), b)?,
                    }
                }
                "x" => {
                    let a = pt::<L>(&chip, l, &io, k, &v[0], is_n(0))?;
                    let x = match &a {
                        P::N(a) => a.extract_p(),
                        P::A(a) => a.extract_p(),
                    };
                    io.put(l, "x", x.inner())?;
                }
                "sign" => {
                    let a = pt::<L>(&chip, l, &io, k, &v[0], false)?;
                    let s = witness(l, c.2, val(k, fe(&v[1])))?;
                    io.put(l, "s", &s)?;
                    let r = a.any().mul_sign(l.namespace(|| "sign"), &s)?;
                    put(l, &io, &r)?;
                }
                "mul" => {
                    // [s] P, and [s] Q with the same scalar variable
                    let s = witness(l, c.2, val(k, fe(&v[0])))?;
                    io.put(l, "s", &s)?;
                    let mut sv = ScalarVar::from_base(chip.clone(), l.namespace(|| "scalar"), &s)?;
                    for j in &v.as_array().unwrap()[1..] {
                        let p = pt::<L>(&chip, l, &io, k, j, true)?;
                        let (r, t) = p.ni().mul(l.namespace(|| "mul"), sv)?;
                        sv = t;
                        put(l, &io, &r)?;
                    }
                }
                "full" => {
                    let s = fe::<Fq>(&v[0]);
                    for b in op["bases"].as_array().unwrap() {
                        // (a scalar cannot be used twice: unimplemented in the gadget)
                        let sv = ScalarFixed::new(chip.clone(), l.namespace(|| "scalar"), if known { Value::known(s) } else { Value::unknown() })?;
                        let f = halo2_gadgets::ecc::FixedPoint::from_inner(chip.clone(), Full(u(b)));
                        let (r, _) = f.mul(l.namespace(|| "full"), sv)?;
                        put(l, &io, &r)?;
                    }
                }
                "base" => {
                    let s = witness(l, c.2, val(k, fe(&v[0])))?;
                    io.put(l, "s", &s)?;
                    for b in op["bases"].as_array().unwrap() {
                        let f = FixedPointBaseField::from_inner(chip.clone(), BaseElem(u(b)));
                        let r = f.mul(l.namespace(|| "base"), s.clone())?;
                        put(l, &io, &r)?;
                    }
                }
                "short" => {
                    let m = witness(l, c.2, val(k, fe(&v[0])))?;
                    io.put(l, "m", &m)?;
                    let s = witness(l, c.2, val(k, fe(&v[1])))?;
                    io.put(l, "s", &s)?;
                    for b in op["bases"].as_array().unwrap() {
                        let sv = ScalarFixedShort::new(chip.clone(), l.namespace(|| "scalar"), (m.clone(), s.clone()))?;
                        let f = FixedPointShort::from_inner(chip.clone(), Short(u(b)));
                        let (r, _) = f.mul(l.namespace(|| "short"), sv)?;
                        put(l, &io, &r)?;
                    }
                }
                "mux" => {
                    let s = witness(l, c.2, val(k, fe(&v[0])))?;
                    io.put(l, "s", &s)?;
                    let a = pt::<L>(&chip, l, &io, k, &v[1], is_n(0))?;
                    let b = pt::<L>(&chip, l, &io, k, &v[2], is_n(0))?;
                    match (&a, &b) {
                        (P::N(a), P::N(b)) => {
                            let r = swap.mux_on_non_identity_points(l.namespace(|| "mux"), &s, a.inner(), b.inner())?;
                            put(l, &io, &Ni::<L>::from_inner(chip.clone(), r).into())?;
                        }
                        _ => {
                            let r = swap.mux_on_points(l.namespace(|| "mux"), &s, a.any().inner(), b.any().inner())?;
                            put(l, &io, &Pt::<L>::from_inner(chip.clone(), r))?;
                        }
                    }
                }
                x => panic!("unknown op {x}"),
            }
        }
        Ok(())
    }
}
