//! Recorders: an `Assignment` backend that logs every call a floor planner makes, and
//! transcript wrappers that log every absorb / write / read / squeeze around the real
//! Blake2b transcripts.
use std::io;
use std::marker::PhantomData;

use ff::Field;
use halo2_proofs::arithmetic::CurveAffine;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::*;
use halo2_proofs::transcript::*;
use rand_core::{impls, Error as RErr, RngCore};
use serde_json::{json, Value as J};

use crate::field::*;
use crate::prog::*;

/// Deterministic RNG (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        impls::fill_bytes_via_next(self, d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RErr> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl Rng {
    pub fn below(&mut self, n: u64) -> u64 {
        self.next_u64() % n
    }
}

pub fn opt_val(v: Value<F>) -> i64 {
    let mut out: i64 = -1;
    v.map(|x| out = x.get() as i64);
    out
}

pub struct Recorder {
    pub ev: Vec<J>,
    pub inst: Option<Vec<Vec<F>>>,
    pub cn: Canon,
    /// when set, any call touching row >= usable is refused, as the real backends do
    pub usable: Option<usize>,
}
impl Recorder {
    pub fn new(inst: Option<Vec<Vec<F>>>, usable: Option<usize>) -> Self {
        Recorder { ev: vec![], inst, cn: canon(), usable }
    }
    fn chk(&self, row: usize) -> Result<(), Error> {
        match self.usable {
            Some(u) if row >= u => Err(Error::BoundsFailure),
            _ => Ok(()),
        }
    }
}
impl Assignment<F> for Recorder {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {
        self.ev.push(json!({"e":"enter"}));
    }
    fn exit_region(&mut self) {
        self.ev.push(json!({"e":"exit"}));
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(
        &mut self,
        _: A,
        s: &Selector,
        row: usize,
    ) -> Result<(), Error> {
        self.chk(row)?;
        self.ev.push(json!({"e":"sel","c":self.cn.s(*s),"r":row}));
        Ok(())
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.chk(row)?;
        Ok(match &self.inst {
            None => Value::unknown(),
            Some(i) => Value::known(i[self.cn.i(c)].get(row).copied().unwrap_or(F::ZERO)),
        })
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.chk(row)?;
        let v = opt_val(to().map(|v| v.into().evaluate()));
        self.ev.push(json!({"e":"adv","c":self.cn.a(c),"r":row,"v":v}));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.chk(row)?;
        let v = opt_val(to().map(|v| v.into().evaluate()));
        self.ev.push(json!({"e":"fix","c":self.cn.f(c),"r":row,"v":v}));
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.chk(lr)?;
        self.chk(rr)?;
        let (lt, li) = self.cn.any(lc);
        let (rt, ri) = self.cn.any(rc);
        self.ev.push(json!({"e":"copy","a":[lt.to_string(),li,lr],"b":[rt.to_string(),ri,rr]}));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.chk(row)?;
        let v = opt_val(to.map(|v| v.evaluate()));
        self.ev.push(json!({"e":"fill","c":self.cn.f(c),"r":row,"v":v}));
        Ok(())
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}

// ---------------------------------------------------------------- transcripts

/// The scalar behind a point of the transparent curve.
pub trait Dlog: CurveAffine {
    fn dlog(&self) -> u64;
}
impl Dlog for ABB {
    fn dlog(&self) -> u64 {
        self.0.get()
    }
}
impl Dlog for A97 {
    fn dlog(&self) -> u64 {
        self.0.get()
    }
}

pub struct Rt<T, C> {
    pub t: T,
    pub ev: Vec<(&'static str, u64)>,
    pub _c: PhantomData<C>,
}
impl<T, C> Rt<T, C> {
    pub fn new(t: T) -> Self {
        Rt { t, ev: vec![], _c: PhantomData }
    }
}
impl<C: Dlog, T: Transcript<C, Challenge255<C>>> Transcript<C, Challenge255<C>> for Rt<T, C>
where
    C::Scalar: Small + ff::FromUniformBytes<64>,
{
    fn squeeze_challenge(&mut self) -> Challenge255<C> {
        let c = self.t.squeeze_challenge();
        self.ev.push(("sq", c.get_scalar().get()));
        c
    }
    fn common_point(&mut self, p: C) -> io::Result<()> {
        self.ev.push(("cp", p.dlog()));
        self.t.common_point(p)
    }
    fn common_scalar(&mut self, s: C::Scalar) -> io::Result<()> {
        self.ev.push(("cs", s.get()));
        self.t.common_scalar(s)
    }
}
impl<C: Dlog, T: TranscriptRead<C, Challenge255<C>>> TranscriptRead<C, Challenge255<C>> for Rt<T, C>
where
    C::Scalar: Small + ff::FromUniformBytes<64>,
{
    fn read_point(&mut self) -> io::Result<C> {
        let p = self.t.read_point()?;
        self.ev.push(("p", p.dlog()));
        Ok(p)
    }
    fn read_scalar(&mut self) -> io::Result<C::Scalar> {
        let s = self.t.read_scalar()?;
        self.ev.push(("s", s.get()));
        Ok(s)
    }
}
impl<C: Dlog, T: TranscriptWrite<C, Challenge255<C>>> TranscriptWrite<C, Challenge255<C>> for Rt<T, C>
where
    C::Scalar: Small + ff::FromUniformBytes<64>,
{
    fn write_point(&mut self, p: C) -> io::Result<()> {
        self.t.write_point(p)?;
        self.ev.push(("p", p.dlog()));
        Ok(())
    }
    fn write_scalar(&mut self, s: C::Scalar) -> io::Result<()> {
        self.t.write_scalar(s)?;
        self.ev.push(("s", s.get()));
        Ok(())
    }
}
pub fn evj(ev: &[(&'static str, u64)]) -> J {
    J::Array(ev.iter().map(|(t, v)| json!([t, v])).collect())
}
