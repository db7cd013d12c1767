//! Scripted circuits: a JSON program (columns, gates, lookups, regions, copies, ...) is
//! interpreted through halo2_proofs' public circuit API.  The specification interprets the
//! same program, so everything the library derives from it can be compared.
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use halo2_proofs::circuit::{AssignedCell, Cell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use serde_json::Value as J;

use crate::field::*;
use ff::Field;

pub type F = BB;

#[derive(Clone, Debug)]
pub enum Ex {
    C(u64),
    S(usize),
    Fx(usize),
    A(usize, i32),
    I(usize, i32),
    Neg(Box<Ex>),
    Add(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    Scale(Box<Ex>, u64),
}
#[derive(Clone, Copy, Debug)]
pub enum Ref {
    L(usize),
    G(usize),
}
#[derive(Clone, Debug)]
pub enum V {
    Unknown,
    Int(u64),
    Rat(u64, u64),
}
#[derive(Clone, Debug)]
pub enum Act {
    Sel(usize, usize),
    Adv(usize, usize, Vec<V>),
    Fix(usize, usize, Vec<V>),
    AdvC(usize, usize, V),
    AdvI(usize, usize, usize, usize),
    /// read an instance row without using it
    IVal(usize, usize),
    CC(Ref, V),
    Eq(Ref, Ref),
    Copy(Ref, usize, usize),
}
#[derive(Clone, Debug)]
pub enum Op {
    Region(Vec<Act>),
    Table(Vec<(usize, usize, V)>),
    Inst(usize, usize, usize),
}
#[derive(Clone, Debug, Default)]
pub struct Gate {
    pub polys: Vec<Ex>,
    pub sel: Option<Ex>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub k: u32,
    pub v1: bool,
    pub traced: bool,
    pub cols: Vec<char>,
    pub eq: Vec<(char, usize)>,
    pub consts: Vec<usize>,
    pub mindeg: usize,
    pub gates: Vec<Gate>,
    pub lookups: Vec<Vec<(Ex, usize)>>,
    pub ops: Vec<Op>,
    pub inst: Vec<Vec<Vec<u64>>>, // per variant, per column
}

fn us(j: &J) -> usize {
    j.as_u64().unwrap_or_else(|| panic!("bad number {j}")) as usize
}
fn ex(j: &J) -> Ex {
    let t = j[0].as_str().unwrap();
    match t {
        "c" => Ex::C(j[1].as_u64().unwrap()),
        "s" => Ex::S(us(&j[1])),
        "f" => Ex::Fx(us(&j[1])),
        "a" => Ex::A(us(&j[1]), j[2].as_i64().unwrap() as i32),
        "i" => Ex::I(us(&j[1]), j[2].as_i64().unwrap() as i32),
        "-" => Ex::Neg(Box::new(ex(&j[1]))),
        "+" => Ex::Add(Box::new(ex(&j[1])), Box::new(ex(&j[2]))),
        "*" => Ex::Mul(Box::new(ex(&j[1])), Box::new(ex(&j[2]))),
        "k" => Ex::Scale(Box::new(ex(&j[1])), j[2].as_u64().unwrap()),
        _ => panic!("bad expr {t}"),
    }
}
fn rf(j: &J) -> Ref {
    match j[0].as_str().unwrap() {
        "l" => Ref::L(us(&j[1])),
        _ => Ref::G(us(&j[1])),
    }
}
fn val(j: &J) -> V {
    if let Some(u) = j.as_u64() {
        V::Int(u)
    } else if j.is_array() {
        V::Rat(j[0].as_u64().unwrap(), j[1].as_u64().unwrap())
    } else {
        V::Unknown
    }
}
fn arr(j: &J) -> Vec<J> {
    j.as_array().cloned().unwrap_or_default()
}
impl Prog {
    pub fn parse(j: &J) -> Prog {
        Prog {
            k: us(&j["k"]) as u32,
            v1: j["fp"].as_str() == Some("v1"),
            traced: j["traced"].as_bool().unwrap_or(false),
            cols: arr(&j["cols"]).iter().map(|c| c.as_str().unwrap().chars().next().unwrap()).collect(),
            eq: arr(&j["eq"]).iter().map(|e| (e[0].as_str().unwrap().chars().next().unwrap(), us(&e[1]))).collect(),
            consts: arr(&j["consts"]).iter().map(us).collect(),
            mindeg: j["mindeg"].as_u64().unwrap_or(0) as usize,
            gates: arr(&j["gates"])
                .iter()
                .map(|g| Gate {
                    polys: arr(&g["polys"]).iter().map(ex).collect(),
                    sel: if g["sel"].is_array() && !arr(&g["sel"]).is_empty() { Some(ex(&g["sel"])) } else { None },
                })
                .collect(),
            lookups: arr(&j["lookups"])
                .iter()
                .map(|l| arr(l).iter().map(|p| (ex(&p[0]), us(&p[1]))).collect())
                .collect(),
            ops: arr(&j["ops"])
                .iter()
                .map(|o| match o["op"].as_str().unwrap() {
                    "region" => Op::Region(
                        arr(&o["acts"])
                            .iter()
                            .map(|a| match a[0].as_str().unwrap() {
                                "sel" => Act::Sel(us(&a[1]), us(&a[2])),
                                "adv" => Act::Adv(us(&a[1]), us(&a[2]), arr(&a[3]).iter().map(val).collect()),
                                "fix" => Act::Fix(us(&a[1]), us(&a[2]), vec![val(&a[3])]),
                                // fixed value that differs between variants (mock prover only)
                                "fixv" => Act::Fix(us(&a[1]), us(&a[2]), arr(&a[3]).iter().map(val).collect()),
                                "advc" => Act::AdvC(us(&a[1]), us(&a[2]), val(&a[3])),
                                "advi" => Act::AdvI(us(&a[1]), us(&a[2]), us(&a[3]), us(&a[4])),
                                "ival" => Act::IVal(us(&a[1]), us(&a[2])),
                                "cc" => Act::CC(rf(&a[1]), val(&a[2])),
                                "eq" => Act::Eq(rf(&a[1]), rf(&a[2])),
                                "copy" => Act::Copy(rf(&a[1]), us(&a[2]), us(&a[3])),
                                x => panic!("bad act {x}"),
                            })
                            .collect(),
                    ),
                    "table" => Op::Table(
                        arr(&o["cells"]).iter().map(|c| (us(&c[0]), us(&c[1]), val(&c[2]))).collect(),
                    ),
                    "inst" => Op::Inst(us(&o["cell"]), us(&o["c"]), us(&o["row"])),
                    x => panic!("bad op {x}"),
                })
                .collect(),
            inst: arr(&j["inst"])
                .iter()
                .map(|v| arr(v).iter().map(|c| arr(c).iter().map(|x| x.as_u64().unwrap()).collect()).collect())
                .collect(),
        }
    }
    pub fn instances(&self, variant: usize) -> Vec<Vec<F>> {
        let v = if self.inst.is_empty() { vec![] } else { self.inst[variant % self.inst.len()].clone() };
        v.iter().map(|c| c.iter().map(|x| F::from(*x)).collect()).collect()
    }
}

static PROG: Mutex<Option<Arc<Prog>>> = Mutex::new(None);
pub fn set_prog(p: Prog) -> Arc<Prog> {
    let a = Arc::new(p);
    *PROG.lock().unwrap_or_else(|e| e.into_inner()) = Some(a.clone());
    a
}
pub fn prog() -> Arc<Prog> {
    PROG.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap()
}

#[derive(Clone, Debug)]
pub enum FixCol {
    F(Column<Fixed>),
    T(TableColumn),
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<FixCol>,
    pub inst: Vec<Column<Instance>>,
    pub sels: Vec<Selector>,
}
/// The i-th column of each kind, made through the public API (for comparison by equality).
pub struct Canon {
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<Column<Fixed>>,
    pub inst: Vec<Column<Instance>>,
    pub sels: Vec<Selector>,
    pub csels: Vec<Selector>,
}
pub fn canon() -> Canon {
    let mut cs = ConstraintSystem::<F>::default();
    let mut cs2 = ConstraintSystem::<F>::default();
    Canon {
        adv: (0..32).map(|_| cs.advice_column()).collect(),
        fix: (0..48).map(|_| cs.fixed_column()).collect(),
        inst: (0..16).map(|_| cs.instance_column()).collect(),
        sels: (0..40).map(|_| cs.selector()).collect(),
        csels: (0..40).map(|_| cs2.complex_selector()).collect(),
    }
}
pub fn fixcol(c: &Canon, i: usize) -> Column<Fixed> {
    c.fix[i]
}
impl Canon {
    pub fn any(&self, c: Column<Any>) -> (char, usize) {
        if let Some(i) = self.adv.iter().position(|x| Column::<Any>::from(*x) == c) {
            return ('a', i);
        }
        if let Some(i) = self.fix.iter().position(|x| Column::<Any>::from(*x) == c) {
            return ('f', i);
        }
        let i = self.inst.iter().position(|x| Column::<Any>::from(*x) == c).unwrap();
        ('i', i)
    }
    pub fn a(&self, c: Column<Advice>) -> usize {
        self.adv.iter().position(|x| *x == c).unwrap()
    }
    pub fn f(&self, c: Column<Fixed>) -> usize {
        self.fix.iter().position(|x| *x == c).unwrap()
    }
    pub fn i(&self, c: Column<Instance>) -> usize {
        self.inst.iter().position(|x| *x == c).unwrap()
    }
    pub fn s(&self, c: Selector) -> usize {
        self.sels.iter().position(|x| *x == c).or_else(|| self.csels.iter().position(|x| *x == c)).unwrap()
    }
}

pub fn build_expr(m: &mut VirtualCells<'_, F>, cfg: &Cfg, cn: &Canon, e: &Ex) -> Expression<F> {
    match e {
        Ex::C(v) => Expression::Constant(F::from(*v)),
        Ex::S(i) => m.query_selector(cfg.sels[*i]),
        Ex::Fx(i) => m.query_fixed(cn.fix[*i]),
        Ex::A(i, r) => m.query_advice(cfg.adv[*i], Rotation(*r)),
        Ex::I(i, r) => m.query_instance(cfg.inst[*i], Rotation(*r)),
        Ex::Neg(a) => -build_expr(m, cfg, cn, a),
        Ex::Add(a, b) => {
            let l = build_expr(m, cfg, cn, a);
            l + build_expr(m, cfg, cn, b)
        }
        Ex::Mul(a, b) => {
            let l = build_expr(m, cfg, cn, a);
            l * build_expr(m, cfg, cn, b)
        }
        Ex::Scale(a, v) => build_expr(m, cfg, cn, a) * F::from(*v),
    }
}

pub fn assigned(v: &V) -> Value<Assigned<F>> {
    match v {
        V::Unknown => Value::unknown(),
        V::Int(x) => Value::known(Assigned::Trivial(F::from(*x))),
        V::Rat(n, d) => Value::known(Assigned::Rational(F::from(*n), F::from(*d))),
    }
}
pub fn assigned_const(v: &V) -> Assigned<F> {
    match v {
        V::Unknown => Assigned::Zero,
        V::Int(x) => Assigned::Trivial(F::from(*x)),
        V::Rat(n, d) => Assigned::Rational(F::from(*n), F::from(*d)),
    }
}

#[derive(Clone)]
pub struct PC<P> {
    pub variant: usize,
    pub known: bool,
    pub _p: PhantomData<P>,
}
impl<P> PC<P> {
    pub fn new(variant: usize) -> Self {
        PC { variant, known: true, _p: PhantomData }
    }
}

/// What the regions' closures were handed back: instance values read, cells' positions are
/// checked through the recorder.
pub static INST_READ: Mutex<Vec<Option<u64>>> = Mutex::new(vec![]);

type AC = AssignedCell<Assigned<F>, F>;
#[derive(Clone)]
enum Item {
    A(AC),
    Fx(Cell),
}
impl Item {
    fn cell(&self) -> Cell {
        match self {
            Item::A(a) => a.cell(),
            Item::Fx(c) => *c,
        }
    }
}

impl<P: FloorPlanner> Circuit<F> for PC<P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        PC { variant: self.variant, known: false, _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Cfg {
        let p = prog();
        let cn = canon();
        let mut cfg = Cfg { adv: vec![], fix: vec![], inst: vec![], sels: vec![] };
        for c in &p.cols {
            match c {
                'a' => cfg.adv.push(m.advice_column()),
                'f' => cfg.fix.push(FixCol::F(m.fixed_column())),
                't' => cfg.fix.push(FixCol::T(m.lookup_table_column())),
                'i' => cfg.inst.push(m.instance_column()),
                's' => cfg.sels.push(m.selector()),
                'x' => cfg.sels.push(m.complex_selector()),
                _ => panic!("bad column kind"),
            }
        }
        for (t, i) in &p.eq {
            match t {
                'a' => m.enable_equality(cfg.adv[*i]),
                'f' => m.enable_equality(cn.fix[*i]),
                _ => m.enable_equality(cfg.inst[*i]),
            }
        }
        for i in &p.consts {
            m.enable_constant(cn.fix[*i]);
        }
        if p.mindeg > 0 {
            m.set_minimum_degree(p.mindeg);
        }
        for g in &p.gates {
            m.create_gate("gate", |vc| {
                let polys: Vec<Constraint<F>> = match &g.sel {
                    None => g.polys.iter().map(|e| build_expr(vc, &cfg, &cn, e).into()).collect(),
                    Some(s) => {
                        let s = build_expr(vc, &cfg, &cn, s);
                        let ps: Vec<_> = g.polys.iter().map(|e| build_expr(vc, &cfg, &cn, e)).collect();
                        Constraints::with_selector(s, ps).into_iter().collect()
                    }
                };
                polys
            });
        }
        for l in &p.lookups {
            m.lookup(|vc| {
                l.iter()
                    .map(|(e, t)| {
                        let e = build_expr(vc, &cfg, &cn, e);
                        match &cfg.fix[*t] {
                            FixCol::T(t) => (e, *t),
                            _ => panic!("not a table column"),
                        }
                    })
                    .collect()
            });
        }
        cfg
    }
    fn synthesize(&self, cfg: Cfg, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let p = prog();
        let mut global: Vec<Item> = vec![];
        for (i, op) in p.ops.iter().enumerate() {
            // some of them in a namespace of their own, or in two
            match i % 4 {
                1 => self.step(&cfg, &mut global, op, &mut layouter.namespace(|| "ns"))?,
                2 => {
                    let mut outer = layouter.namespace(|| "outer");
                    let mut inner = outer.namespace(|| "inner");
                    self.step(&cfg, &mut global, op, &mut inner)?
                }
                _ => self.step(&cfg, &mut global, op, &mut layouter)?,
            }
        }
        Ok(())
    }
}

impl<P: FloorPlanner> PC<P> {
    fn step(&self, cfg: &Cfg, global: &mut Vec<Item>, op: &Op, layouter: &mut impl Layouter<F>) -> Result<(), Error> {
        let cn = canon();
        {
            match op {
                Op::Region(acts) => {
                    let items = layouter.assign_region(
                        || "region",
                        |mut region| {
                            let mut loc: Vec<Item> = vec![];
                            let get = |loc: &Vec<Item>, r: &Ref| match r {
                                Ref::L(i) => loc[*i].clone(),
                                Ref::G(i) => global[*i].clone(),
                            };
                            for a in acts {
                                match a {
                                    Act::Sel(s, o) => cfg.sels[*s].enable(&mut region, *o)?,
                                    Act::Adv(c, o, vs) => {
                                        let known = self.known;
                                        let v = &vs[self.variant % vs.len()];
                                        loc.push(Item::A(region.assign_advice(
                                            || "adv",
                                            cfg.adv[*c],
                                            *o,
                                            || if known { assigned(v) } else { Value::unknown() },
                                        )?))
                                    }
                                    Act::Fix(c, o, v) => loc.push(Item::Fx(
                                        region.assign_fixed(|| "fix", cn.fix[*c], *o, || assigned(&v[self.variant % v.len()]))?.cell(),
                                    )),
                                    Act::AdvC(c, o, v) => loc.push(Item::A(region.assign_advice_from_constant(
                                        || "advc",
                                        cfg.adv[*c],
                                        *o,
                                        assigned_const(v),
                                    )?)),
                                    Act::AdvI(c, o, ic, ir) => {
                                        let a = region.assign_advice_from_instance(
                                            || "advi",
                                            cfg.inst[*ic],
                                            *ir,
                                            cfg.adv[*c],
                                            *o,
                                        )?;
                                        let out: RefCell<Option<u64>> = RefCell::new(None);
                                        let _ = a.value().map(|v| *out.borrow_mut() = Some(v.get()));
                                        INST_READ.lock().unwrap().push(out.into_inner());
                                        // keep the cell only: value types differ
                                        loc.push(Item::Fx(a.cell()));
                                    }
                                    Act::IVal(ic, ir) => {
                                        let v = region.instance_value(cfg.inst[*ic], *ir)?;
                                        let out: RefCell<Option<u64>> = RefCell::new(None);
                                        let _ = v.map(|v| *out.borrow_mut() = Some(v.get()));
                                        INST_READ.lock().unwrap().push(out.into_inner());
                                    }
                                    Act::CC(r, v) => {
                                        let c = get(&loc, r).cell();
                                        region.constrain_constant(c, assigned_const(v))?
                                    }
                                    Act::Eq(a, b) => {
                                        let (x, y) = (get(&loc, a).cell(), get(&loc, b).cell());
                                        region.constrain_equal(x, y)?
                                    }
                                    Act::Copy(r, c, o) => match get(&loc, r) {
                                        Item::A(x) => loc.push(Item::A(x.copy_advice(
                                            || "copy",
                                            &mut region,
                                            cfg.adv[*c],
                                            *o,
                                        )?)),
                                        Item::Fx(_) => panic!("copy of a non-advice cell"),
                                    },
                                }
                            }
                            Ok(loc)
                        },
                    )?;
                    global.extend(items);
                }
                Op::Table(cells) => layouter.assign_table(
                    || "table",
                    |mut t| {
                        for (c, o, v) in cells {
                            let col = match &cfg.fix[*c] {
                                FixCol::T(t) => *t,
                                _ => panic!("not a table column"),
                            };
                            t.assign_cell(|| "t", col, *o, || assigned(v))?;
                        }
                        Ok(())
                    },
                )?,
                Op::Inst(g, c, r) => layouter.constrain_instance(global[*g].cell(), cfg.inst[*c], *r)?,
            }
        }
        Ok(())
    }
}

pub type Simple = SimpleFloorPlanner;
pub type TSimple = halo2_proofs::dev::TracingFloorPlanner<Simple>;
pub type TV1 = halo2_proofs::dev::TracingFloorPlanner<V1>;
pub type V1 = halo2_proofs::circuit::floor_planner::V1;
#[allow(unused)]
pub fn one() -> F {
    F::ONE
}
