//! Extraction of the whole circuit a gadget builds: the constraint system (as pinned by the
//! library), every selector, fixed value, copy and advice assignment made during synthesis, and
//! the verdict of the real MockProver on the honest witness.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use ff::{Field, FromUniformBytes, PrimeField};
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use serde_json::{json, Value as J};

pub fn hex<T: PrimeField>(x: &T) -> String {
    let r = x.to_repr();
    let s: String = r.as_ref().iter().rev().map(|b| format!("{b:02x}")).collect();
    let s = s.trim_start_matches('0');
    if s.is_empty() { "0".into() } else { s.into() }
}
pub fn unhex<T: PrimeField>(s: &str) -> T {
    let mut a = T::ZERO;
    for c in s.chars() {
        a = a * T::from(16) + T::from(c.to_digit(16).expect("hex digit") as u64);
    }
    a
}
pub fn fe<T: PrimeField>(j: &J) -> T {
    match j {
        J::String(s) => unhex(s),
        j => T::from(j.as_u64().expect("field element")),
    }
}
pub fn fes<T: PrimeField>(j: &J) -> Vec<T> {
    j.as_array().map(|a| a.iter().map(fe).collect()).unwrap_or_default()
}
pub fn u(j: &J) -> usize {
    j.as_u64().unwrap_or_else(|| panic!("bad number {j}")) as usize
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
    })
}

thread_local! {
    /// Parameters of the case being run (configurations depend on them).
    pub static CASE: RefCell<J> = RefCell::new(J::Null);
    static IO: RefCell<Vec<String>> = RefCell::new(vec![]);
}
pub fn case() -> J {
    CASE.with(|c| c.borrow().clone())
}

/// The public interface of a gadget circuit: each named value is tied to a row of one instance column.
#[derive(Clone, Copy, Debug)]
pub struct Io(pub Column<Instance>);
impl Io {
    pub fn put<F: Field>(&self, l: &mut impl Layouter<F>, name: &str, c: &AssignedCell<F, F>) -> Result<(), Error> {
        let i = IO.with(|io| {
            let mut io = io.borrow_mut();
            io.push(name.to_string());
            io.len() - 1
        });
        l.constrain_instance(c.cell(), self.0, i)
    }
}

pub trait Gadget<F: PrimeField>: Default {
    type Config: Clone;
    /// constants: the column enabled for constants by the caller
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synth(config: Self::Config, io: Io, l: &mut impl Layouter<F>, known: bool) -> Result<(), Error>;
}
#[derive(Default)]
pub struct G<T>(bool, std::marker::PhantomData<T>);
impl<F: PrimeField, T: Gadget<F>> Circuit<F> for G<T> {
    type Config = (T::Config, Column<Instance>, Column<Fixed>);
    type FloorPlanner = Tampered;
    fn without_witnesses(&self) -> Self {
        G(false, self.1)
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let inst = meta.instance_column();
        meta.enable_equality(inst);
        let consts = meta.fixed_column();
        meta.enable_constant(consts);
        (T::configure(meta), inst, consts)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        IO.with(|io| io.borrow_mut().clear());
        T::synth(c.0, Io(c.1), &mut l, self.0)
    }
}
thread_local! {
    static TAMPER: RefCell<HashMap<(usize, usize), String>> = RefCell::new(HashMap::new());
}
/// The single-pass planner, with chosen advice values replaced on their way to the backend.
pub struct Tampered;
impl FloorPlanner for Tampered {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(cs: &mut CS, circuit: &C, config: C::Config, constants: Vec<Column<Fixed>>) -> Result<(), Error> {
        let mut t = Tamper(cs, std::marker::PhantomData);
        SimpleFloorPlanner::synthesize(&mut t, circuit, config, constants)
    }
}
fn small<F: Field>(s: &str) -> F {
    let mut sixteen = F::ONE;
    for _ in 0..4 {
        sixteen = sixteen.double();
    }
    let mut a = F::ZERO;
    for c in s.chars() {
        a = a * sixteen;
        for _ in 0..c.to_digit(16).unwrap() {
            a += F::ONE;
        }
    }
    a
}
struct Tamper<'a, F, CS>(&'a mut CS, std::marker::PhantomData<F>);
impl<'a, F: Field, CS: Assignment<F>> Assignment<F> for Tamper<'a, F, CS> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.enter_region(n)
    }
    fn exit_region(&mut self) {
        self.0.exit_region()
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, s: &Selector, row: usize) -> Result<(), Error> {
        self.0.enable_selector(a, s, row)
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.0.query_instance(c, row)
    }
    fn assign_advice<V, VR, A, AR>(&mut self, a: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let t = TAMPER.with(|t| {
            let t = t.borrow();
            if t.is_empty() { None } else { t.get(&(index(c).1, row)).cloned() }
        });
        match t {
            None => self.0.assign_advice(a, c, row, to),
            Some(h) => self.0.assign_advice(a, c, row, || {
                let _ = to();
                Value::known(small::<F>(&h))
            }),
        }
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, a: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.assign_fixed(a, c, row, to)
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.0.copy(lc, lr, rc, rr)
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.0.fill_from_row(c, row, to)
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self, g: Option<String>) {
        self.0.pop_namespace(g)
    }
}

/// The verdict of the real mock prover on the witness with some cells replaced.
/// case.tamper: list of {cells: [[column, row, value]], inst: [values]}
fn tamper<F, T>(c: &J) -> J
where
    F: PrimeField + FromUniformBytes<64> + Ord,
    T: Gadget<F>,
{
    let k = u(&c["k"]) as u32;
    let circuit = G::<T>(true, std::marker::PhantomData);
    let out: Vec<J> = c["tamper"].as_array().unwrap().iter().map(|t| {
        let m: HashMap<_, _> = t["cells"].as_array().unwrap().iter().map(|x| ((u(&x[0]), u(&x[1])), x[2].as_str().unwrap().to_string())).collect();
        TAMPER.with(|x| *x.borrow_mut() = m);
        let r = guard(|| MockProver::run(k, &circuit, vec![fes::<F>(&t["inst"])]).map(|p| p.verify()));
        TAMPER.with(|x| x.borrow_mut().clear());
        match r {
            Ok(Ok(Ok(()))) => json!("ok"),
            Ok(Ok(Err(_))) => json!("rejected"),
            Ok(Err(e)) => json!(format!("error: {e:?}")),
            Err(e) => json!(format!("panic: {e}")),
        }
    }).collect();
    json!({"id": c["id"], "verdicts": out})
}

pub fn val<F: Field>(known: bool, x: F) -> Value<F> {
    if known { Value::known(x) } else { Value::unknown() }
}
/// Witness a value in a region of its own.
pub fn witness<F: Field>(l: &mut impl Layouter<F>, col: Column<Advice>, v: Value<F>) -> Result<AssignedCell<F, F>, Error> {
    l.assign_region(|| "input", |mut r| r.assign_advice(|| "input", col, 0, || v))
}

fn index<C: std::fmt::Debug>(c: C) -> (char, usize) {
    let s = format!("{c:?}");
    let k = if s.contains("Advice") { 'a' } else if s.contains("Fixed") { 'f' } else { 'i' };
    let i = s.split("index: ").nth(1).expect("column index").chars().take_while(|c| c.is_ascii_digit()).collect::<String>();
    (k, i.parse().unwrap())
}
fn selidx(s: &Selector) -> usize {
    let s = format!("{s:?}");
    s.split('(').nth(1).unwrap().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}

#[derive(Default)]
pub struct Ext<F> {
    pub adv: HashMap<(usize, usize), (usize, Option<F>)>,
    pub reassigned: usize,
    pub fixed: HashMap<usize, HashMap<usize, Option<F>>>,
    pub fill: Vec<(usize, usize, Option<F>)>,
    pub sel: Vec<(usize, usize)>,
    pub copy: Vec<((char, usize, usize), (char, usize, usize))>,
}
fn opt<F: Copy>(v: Value<F>) -> Option<F> {
    let mut o = None;
    v.map(|x| o = Some(x));
    o
}
impl<F: PrimeField> Assignment<F> for Ext<F> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn exit_region(&mut self) {}
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error> {
        self.sel.push((selidx(s), row));
        Ok(())
    }
    fn query_instance(&self, _: Column<Instance>, _: usize) -> Result<Value<F>, Error> {
        Ok(Value::unknown())
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = opt(to().map(|v| v.into().evaluate()));
        let n = self.adv.len();
        let key = (index(c).1, row);
        if let Some(e) = self.adv.get_mut(&key) {
            e.1 = v;
            self.reassigned += 1;
        } else {
            self.adv.insert(key, (n, v));
        }
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = opt(to().map(|v| v.into().evaluate()));
        self.fixed.entry(index(c).1).or_default().insert(row, v);
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        let (a, i) = index(lc);
        let (b, j) = index(rc);
        self.copy.push(((a, i, lr), (b, j, rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.fill.push((index(c).1, row, opt(to.map(|v| v.evaluate()))));
        Ok(())
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}

fn oh<F: PrimeField>(v: &Option<F>) -> J {
    v.as_ref().map(|x| json!(hex(x))).unwrap_or(J::Null)
}

pub fn modulus<F: PrimeField>() -> String {
    // p - 1, plus one in the last hexadecimal digit (p - 1 is even)
    let mut s = hex(&-F::ONE);
    let d = s.pop().unwrap().to_digit(16).unwrap() + 1;
    s.push(char::from_digit(d, 16).unwrap());
    s
}

pub fn extract<F, T>(c: &J) -> J
where
    F: PrimeField + FromUniformBytes<64> + Ord,
    T: Gadget<F>,
{
    CASE.with(|x| *x.borrow_mut() = c.clone());
    if c["tamper"].is_array() {
        return tamper::<F, T>(c);
    }
    let k = u(&c["k"]) as u32;
    let mut cs = ConstraintSystem::default();
    let config = match guard(|| <G<T> as Circuit<F>>::configure(&mut cs)) {
        Ok(x) => x,
        Err(e) => return json!({"id": c["id"], "conf": e}),
    };
    let circuit = G::<T>(true, std::marker::PhantomData);
    let mut e = Ext::<F>::default();
    let consts = vec![config.2];
    let syn = guard(|| SimpleFloorPlanner::synthesize(&mut e, &circuit, config.clone(), consts.clone()));
    let syn = match syn {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("error: {e:?}"),
        Err(e) => format!("panic: {e}"),
    };
    if syn != "ok" {
        return json!({"id": c["id"], "syn": syn});
    }
    let io = IO.with(|io| io.borrow().clone());
    let mut inst = vec![F::ZERO; io.len()];
    for (a, b) in &e.copy {
        for (x, y) in [(a, b), (b, a)] {
            if x.0 == 'i' && y.0 == 'a' {
                inst[x.2] = e.adv.get(&(y.1, y.2)).and_then(|v| v.1).unwrap_or(F::ZERO);
            }
        }
    }
    // the layout may not depend on the witness
    let mut e0 = Ext::<F>::default();
    let blank = G::<T>(false, std::marker::PhantomData);
    let same = match guard(|| SimpleFloorPlanner::synthesize(&mut e0, &blank, config.clone(), consts)) {
        Ok(Ok(())) => e0.sel == e.sel && e0.copy == e.copy && e0.fixed == e.fixed && e0.adv.len() == e.adv.len(),
        _ => false,
    };
    let mock = if c["nomock"].as_bool() == Some(true) {
        "skipped".to_string()
    } else {
        match guard(|| MockProver::run(k, &circuit, vec![inst.clone()]).map(|p| p.verify())) {
            Ok(Ok(Ok(()))) => "ok".to_string(),
            Ok(Ok(Err(v))) => format!("rejected: {} {}", v.len(), v.iter().take(2).map(|f| format!("{f}").replace('\n', " ")).collect::<Vec<_>>().join("; ")),
            Ok(Err(e)) => format!("error: {e:?}"),
            Err(e) => format!("panic: {e}"),
        }
    };
    let mut adv: Vec<(usize, usize, usize, J)> = e.adv.iter().map(|((c, r), (n, v))| (*n, *c, *r, oh(v))).collect();
    adv.sort_by_key(|x| x.0);
    let full = c["brief"].as_bool() != Some(true);
    let mut out = json!({
        "id": c["id"], "syn": syn, "mock": mock, "p": modulus::<F>(), "io": io,
        "inst": inst.iter().map(hex).collect::<Vec<_>>(), "same": same, "reassigned": e.reassigned,
    });
    if full {
        let o = out.as_object_mut().unwrap();
        o.insert("cs".into(), json!(format!("{:?}", cs.pinned())));
        o.insert("adv".into(), json!(adv.into_iter().map(|(_, c, r, v)| json!([c, r, v])).collect::<Vec<_>>()));
        let mut fx: Vec<_> = e.fixed.iter().flat_map(|(c, m)| m.iter().map(move |(r, v)| (*c, *r, oh(v)))).collect();
        fx.sort_by_key(|x| (x.0, x.1));
        o.insert("fix".into(), json!(fx));
        o.insert("fill".into(), json!(e.fill.iter().map(|(c, r, v)| json!([c, r, oh(v)])).collect::<Vec<_>>()));
        o.insert("sel".into(), json!(e.sel));
        o.insert("copy".into(), json!(e.copy.iter().map(|(a, b)| json!([[a.0.to_string(), a.1, a.2], [b.0.to_string(), b.1, b.2]])).collect::<Vec<_>>()));
    }
    out
}

/// The cases of the input file, run one after the other.
pub fn drive(run: fn(&J) -> J) {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HV_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let input: J = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("input")).expect("json");
    let out: Vec<J> = input.as_array().expect("array of cases").iter().map(run).collect();
    std::fs::write(&a[3], serde_json::to_string(&out).unwrap()).expect("output");
}
