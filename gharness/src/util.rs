//! Conditional swap, multiplexer, range checks and running sums.
use ff::{Field, PrimeField, PrimeFieldBits};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::{LookupRangeCheck, LookupRangeCheck4_5BConfig, LookupRangeCheckConfig};
use halo2_gadgets::utilities::{RangeConstrained, bitrange_subset, decompose_word, i2lebsp, lebs2ip};
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::plonk::*;
use serde_json::{json, Value as J};

use crate::ext::*;

// ------------------------------------------------------------------ swap and mux
#[derive(Default)]
pub struct Swap;
impl<F: PrimeField> Gadget<F> for Swap {
    type Config = (CondSwapConfig, [Column<Advice>; 5], Column<Advice>);
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let a = [(); 5].map(|_| meta.advice_column());
        let x = meta.advice_column();
        for c in a {
            meta.enable_equality(c);
        }
        meta.enable_equality(x);
        (CondSwapChip::configure(meta, a), a, x)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error> {
        let chip = CondSwapChip::<F>::construct(c.0);
        for op in case()["ops"].as_array().unwrap() {
            let v: Vec<F> = fes(&op["v"]);
            let a = witness(l, c.2, val(known, v[0]))?;
            io.put(l, "a", &a)?;
            match op["op"].as_str().unwrap() {
                "swap" => {
                    let s = if known { Value::known(v[2] == F::ONE) } else { Value::unknown() };
                    let (x, y) = chip.swap(l.namespace(|| "swap"), (a, val(known, v[1])), s)?;
                    io.put(l, "x", &x)?;
                    io.put(l, "y", &y)?;
                }
                _ => {
                    let b = witness(l, c.2, val(known, v[1]))?;
                    io.put(l, "b", &b)?;
                    let s = witness(l, c.2, val(known, v[2]))?;
                    io.put(l, "s", &s)?;
                    let x = chip.mux(l, s, a, b)?;
                    io.put(l, "x", &x)?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ lookup range check
#[derive(Default)]
pub struct Range<const K: usize>;
impl<F: PrimeFieldBits, const K: usize> Gadget<F> for Range<K> {
    type Config = (LookupRangeCheckConfig<F, K>, Column<Advice>, TableColumn);
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let z = meta.advice_column();
        let x = meta.advice_column();
        meta.enable_equality(x);
        let t = meta.lookup_table_column();
        (LookupRangeCheckConfig::configure(meta, z, t), x, t)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error> {
        l.assign_table(|| "table", |mut t| {
            for i in 0..(1usize << K) {
                t.assign_cell(|| "t", c.2, i, || Value::known(F::from(i as u64)))?;
            }
            Ok(())
        })?;
        ranges::<F, K, _>(c.0, c.1, io, l, known)
    }
}
/// The variant with a tag column for 4 and 5 bit checks.
#[derive(Default)]
pub struct Range45<const K: usize>;
impl<F: PrimeFieldBits, const K: usize> Gadget<F> for Range45<K> {
    type Config = (LookupRangeCheck4_5BConfig<F, K>, Column<Advice>, TableColumn, TableColumn);
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let z = meta.advice_column();
        let x = meta.advice_column();
        meta.enable_equality(x);
        let t = meta.lookup_table_column();
        let g = meta.lookup_table_column();
        (LookupRangeCheck4_5BConfig::configure_with_tag(meta, z, t, g), x, t, g)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error> {
        l.assign_table(|| "table", |mut t| {
            let mut row = 0;
            for (tag, bits) in [(0u64, K), (4, 4), (5, 5)] {
                for i in 0..(1u64 << bits) {
                    t.assign_cell(|| "t", c.2, row, || Value::known(F::from(i)))?;
                    t.assign_cell(|| "g", c.3, row, || Value::known(F::from(tag)))?;
                    row += 1;
                }
            }
            Ok(())
        })?;
        ranges::<F, K, _>(c.0, c.1, io, l, known)
    }
}
fn ranges<F: PrimeFieldBits, const K: usize, L: LookupRangeCheck<F, K>>(c: L, x: Column<Advice>, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error> {
    for op in case()["ops"].as_array().unwrap() {
        let v: F = fe(&op["v"]);
        let n = u(&op["n"]);
        let strict = op["strict"].as_bool().unwrap_or(false);
        match op["op"].as_str().unwrap() {
            "copy" => {
                let a = witness(l, x, val(known, v))?;
                let zs = c.copy_check(l.namespace(|| "copy"), a, n, strict)?;
                for z in zs.iter() {
                    io.put(l, "z", z)?;
                }
            }
            "witness" => {
                let zs = c.witness_check(l.namespace(|| "witness"), val(known, v), n, strict)?;
                for z in zs.iter() {
                    io.put(l, "z", z)?;
                }
            }
            "copyshort" => {
                let a = witness(l, x, val(known, v))?;
                io.put(l, "e", &a)?;
                c.copy_short_check(l.namespace(|| "cs"), a, n)?;
            }
            "short" => {
                let a = c.witness_short_check(l.namespace(|| "ws"), val(known, v), n)?;
                io.put(l, "e", &a)?;
            }
            "range" => {
                // bits [s, s+n) of the value
                let s = u(&op["s"]);
                let a = RangeConstrained::witness_short(&c, l.namespace(|| "rc"), val(known, v).as_ref(), s..s + n)?;
                io.put(l, "e", a.inner())?;
            }
            x => panic!("unknown op {x}"),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ running sum
#[derive(Default)]
pub struct Sum<const W: usize>;
impl<F: PrimeFieldBits, const W: usize> Gadget<F> for Sum<W> {
    type Config = (RunningSumConfig<F, W>, Column<Advice>);
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let z = meta.advice_column();
        let x = meta.advice_column();
        meta.enable_equality(x);
        let q = meta.selector();
        (RunningSumConfig::configure(meta, q, z), x)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error> {
        for op in case()["ops"].as_array().unwrap() {
            let v: F = fe(&op["v"]);
            let (n, bits, off) = (u(&op["n"]), u(&op["bits"]), u(&op["off"]));
            let strict = op["strict"].as_bool().unwrap_or(false);
            let zs = if op["op"] == "copy" {
                let a = witness(l, c.1, val(known, v))?;
                l.assign_region(|| "sum", |mut r| c.0.copy_decompose(&mut r, off, a.clone(), strict, bits, n))?
            } else {
                l.assign_region(|| "sum", |mut r| c.0.witness_decompose(&mut r, off, val(known, v), strict, bits, n))?
            };
            for z in zs.iter() {
                io.put(l, "z", z)?;
            }
        }
        Ok(())
    }
}

/// Native helpers: bit slices, words, bit strings.
pub fn native<F: PrimeFieldBits>(c: &J) -> J {
    let out: Vec<J> = c["ops"].as_array().unwrap().iter().map(|op| {
        let r = guard(|| match op["op"].as_str().unwrap() {
            "bitrange" => json!(hex(&bitrange_subset(&fe::<F>(&op["v"]), u(&op["a"])..u(&op["b"])))),
            "words" => json!(decompose_word(&fe::<F>(&op["v"]), u(&op["n"]), u(&op["w"]))),
            "lebs" => {
                // a 64-bit string, read back through windows of several sizes
                let x = u64::from_str_radix(op["v"].as_str().unwrap(), 16).unwrap();
                let b = i2lebsp::<64>(x);
                let t = i2lebsp::<10>(x & 1023);
                json!([b.iter().map(|b| *b as u8).collect::<Vec<_>>(), format!("{:x}", lebs2ip(&b)), format!("{:x}", lebs2ip(&t))])
            }
            x => panic!("unknown op {x}"),
        });
        match r {
            Ok(x) => json!({"ok": x}),
            Err(e) => json!({"panic": e}),
        }
    }).collect();
    json!({"id": c["id"], "out": out, "p": modulus::<F>()})
}
