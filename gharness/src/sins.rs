//! Sinsemilla hashes, commitments and Merkle paths.
use std::convert::TryInto;
use std::marker::PhantomData;

use halo2_gadgets::ecc::chip::{EccChip, EccConfig, NonIdentityEccPoint};
use halo2_gadgets::ecc::{NonIdentityPoint, Point, ScalarFixed};
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::{MerkleInstructions, MerklePath};
use halo2_gadgets::sinsemilla::primitives::{C as MAXW, K, SINSEMILLA_S};
use halo2_gadgets::sinsemilla::{CommitDomain, CommitDomains, HashDomain, HashDomains, Message, MessagePiece, SinsemillaInstructions};
use halo2_gadgets::utilities::cond_swap::CondSwapInstructions;
use halo2_gadgets::utilities::{RangeConstrained, UtilitiesInstructions};
use halo2_proofs::circuit::{AssignedCell, Chip, Layouter, Value};
use halo2_proofs::plonk::*;
use pasta_curves::pallas;
use serde_json::{json, Value as J};

use crate::ecc::{point, put, Bases, Full, RC};
use crate::ext::*;

type Fp = pallas::Base;
type Fq = pallas::Scalar;
type Cell = AssignedCell<Fp, Fp>;

/// The generators the gadget takes from the sinsemilla crate.
pub fn table() -> J {
    json!(SINSEMILLA_S.iter().map(|(x, y)| json!([hex(x), hex(y)])).collect::<Vec<_>>())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hd(pallas::Affine);
impl HashDomains<pallas::Affine> for Hd {
    fn Q(&self) -> pallas::Affine {
        self.0
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cd(pallas::Affine, usize);
impl CommitDomains<pallas::Affine, Bases, Hd> for Cd {
    fn r(&self) -> Full {
        Full(self.1)
    }
    fn hash_domain(&self) -> Hd {
        Hd(self.0)
    }
}

type Sc<L> = SinsemillaChip<Hd, Cd, Bases, L>;
type Mc<L> = MerkleChip<Hd, Cd, Bases, L>;

/// A Merkle chip that shows the operands and the result of every layer at the interface.
#[derive(Clone, Debug)]
struct Spy<L: RC>(Mc<L>, Io);
impl<L: RC> Chip<Fp> for Spy<L> {
    type Config = MerkleConfig<Hd, Cd, Bases, L>;
    type Loaded = ();
    fn config(&self) -> &Self::Config {
        self.0.config()
    }
    fn loaded(&self) -> &() {
        &()
    }
}
impl<L: RC> UtilitiesInstructions<Fp> for Spy<L> {
    type Var = Cell;
}
impl<L: RC> CondSwapInstructions<Fp> for Spy<L> {
    fn swap(&self, l: impl Layouter<Fp>, pair: (Cell, Value<Fp>), s: Value<bool>) -> Result<(Cell, Cell), Error> {
        self.0.swap(l, pair, s)
    }
    fn mux(&self, l: &mut impl Layouter<Fp>, c: Cell, a: Cell, b: Cell) -> Result<Cell, Error> {
        self.0.mux(l, c, a, b)
    }
}
impl<L: RC> SinsemillaInstructions<pallas::Affine, K, MAXW> for Spy<L> {
    type CellValue = Cell;
    type Message = <Mc<L> as SinsemillaInstructions<pallas::Affine, K, MAXW>>::Message;
    type MessagePiece = <Mc<L> as SinsemillaInstructions<pallas::Affine, K, MAXW>>::MessagePiece;
    type RunningSum = Vec<Cell>;
    type X = Cell;
    type NonIdentityPoint = NonIdentityEccPoint;
    type FixedPoints = Bases;
    type HashDomains = Hd;
    type CommitDomains = Cd;
    fn witness_message_piece(&self, l: impl Layouter<Fp>, v: Value<Fp>, n: usize) -> Result<Self::MessagePiece, Error> {
        self.0.witness_message_piece(l, v, n)
    }
    #[allow(non_snake_case)]
    fn hash_to_point(&self, l: impl Layouter<Fp>, Q: pallas::Affine, m: Self::Message) -> Result<(NonIdentityEccPoint, Vec<Vec<Cell>>), Error> {
        self.0.hash_to_point(l, Q, m)
    }
    #[allow(non_snake_case)]
    fn hash_to_point_with_private_init(&self, l: impl Layouter<Fp>, Q: &NonIdentityEccPoint, m: Self::Message) -> Result<(NonIdentityEccPoint, Vec<Vec<Cell>>), Error> {
        self.0.hash_to_point_with_private_init(l, Q, m)
    }
    fn extract(p: &NonIdentityEccPoint) -> Cell {
        <Mc<L> as SinsemillaInstructions<pallas::Affine, K, MAXW>>::extract(p)
    }
}
impl<L: RC, const N: usize> MerkleInstructions<pallas::Affine, N, K, MAXW> for Spy<L> {
    #[allow(non_snake_case)]
    fn hash_layer(&self, mut l: impl Layouter<Fp>, Q: pallas::Affine, i: usize, left: Cell, right: Cell) -> Result<Cell, Error> {
        self.1.put(&mut l, "left", &left)?;
        self.1.put(&mut l, "right", &right)?;
        let r = <Mc<L> as MerkleInstructions<pallas::Affine, N, K, MAXW>>::hash_layer(&self.0, l.namespace(|| "layer"), Q, i, left, right)?;
        self.1.put(&mut l, "out", &r)?;
        Ok(r)
    }
}

fn path<L: RC, const N: usize, const P: usize>(chips: &[Spy<L>], q: Hd, l: &mut impl Layouter<Fp>, known: bool, pos: u32, sibs: Vec<Fp>, leaf: Cell) -> Result<Cell, Error> {
    let chips: [Spy<L>; P] = (0..P).map(|i| chips[i % chips.len()].clone()).collect::<Vec<_>>().try_into().unwrap();
    let sibs: [Fp; N] = sibs.try_into().unwrap();
    let (pos, sibs) = if known { (Value::known(pos), Value::known(sibs)) } else { (Value::unknown(), Value::unknown()) };
    MerklePath::construct(chips, q, pos, sibs).calculate_root(l.namespace(|| "path"), leaf)
}

pub struct Sins<L, const PRIV: bool>(PhantomData<L>);
impl<L, const PRIV: bool> Default for Sins<L, PRIV> {
    fn default() -> Self {
        Sins(PhantomData)
    }
}
type Conf<L> = SinsemillaConfig<Hd, Cd, Bases, L>;

fn message<L: RC>(io: Io, chip: &Sc<L>, rc: &L, l: &mut impl Layouter<Fp>, known: bool, pieces: &J) -> Result<Message<pallas::Affine, Sc<L>, K, MAXW>, Error> {
    let mut ps: Vec<MessagePiece<pallas::Affine, Sc<L>, K, MAXW>> = vec![];
    for p in pieces.as_array().unwrap() {
        let piece = if p["ref"].is_u64() {
            ps[u(&p["ref"])].clone()
        } else if p["sub"].is_array() {
            let mut subs = vec![];
            for s in p["sub"].as_array().unwrap() {
                let v = val(known, fe::<Fp>(&s[0]));
                let (a, b) = (u(&s[1]), u(&s[2]));
                subs.push(if s[3] == "w" { RangeConstrained::witness_short(rc, l.namespace(|| "short"), v.as_ref(), a..b)?.value() } else { RangeConstrained::bitrange_of(v.as_ref(), a..b) });
            }
            MessagePiece::from_subpieces(chip.clone(), l.namespace(|| "piece"), subs)?
        } else {
            MessagePiece::from_field_elem(chip.clone(), l.namespace(|| "piece"), val(known, fe(&p["v"])), u(&p["n"]))?
        };
        io.put(l, "piece", &piece.inner().cell_value())?;
        ps.push(piece);
    }
    Ok(Message::from_pieces(chip.clone(), ps))
}

impl<L: RC, const PRIV: bool> Gadget<Fp> for Sins<L, PRIV> {
    type Config = (EccConfig<Bases, L>, [Conf<L>; 2], [MerkleConfig<Hd, Cd, Bases, L>; 2], Column<Advice>, L);
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let adv = [(); 10].map(|_| meta.advice_column());
        let x = meta.advice_column();
        meta.enable_equality(x);
        let lag = [(); 8].map(|_| meta.fixed_column());
        let (rc, t) = L::conf(meta, adv[9]);
        let lookup = (L::idx(t), meta.lookup_table_column(), meta.lookup_table_column());
        let ecc = EccChip::<Bases, L>::configure(meta, adv, lag, rc);
        let s1 = Sc::<L>::configure(meta, adv[..5].try_into().unwrap(), adv[2], lag[0], lookup, rc, PRIV);
        let s2 = Sc::<L>::configure(meta, adv[5..].try_into().unwrap(), adv[7], lag[1], lookup, rc, PRIV);
        let m1 = Mc::<L>::configure(meta, s1.clone());
        let m2 = Mc::<L>::configure(meta, s2.clone());
        (ecc, [s1, s2], [m1, m2], x, rc)
    }
    fn synth(c: Self::Config, io: Io, l: &mut impl Layouter<Fp>, known: bool) -> Result<(), Error> {
        Sc::<L>::load(c.1[0].clone(), l)?;
        let ecc = EccChip::<Bases, L>::construct(c.0);
        let sets = [Sc::<L>::construct(c.1[0].clone()), Sc::<L>::construct(c.1[1].clone())];
        let spies = [Spy(Mc::<L>::construct(c.2[0].clone()), io), Spy(Mc::<L>::construct(c.2[1].clone()), io)];
        for op in case()["ops"].as_array().unwrap() {
            let set = u(&op["set"]);
            let chip = sets[set].clone();
            let q = point(&op["Q"]);
            let zput = |l: &mut _, zs: &Vec<Vec<Cell>>| -> Result<(), Error> {
                for z in zs.iter().flatten() {
                    io.put(l, "z", z)?;
                }
                Ok(())
            };
            let private = |l: &mut _| -> Result<NonIdentityPoint<pallas::Affine, EccChip<Bases, L>>, Error> {
                let q = NonIdentityPoint::<pallas::Affine, _>::new(ecc.clone(), Layouter::namespace(l, || "Q"), if known { Value::known(q) } else { Value::unknown() })?;
                put(l, &io, &q.clone().into())?;
                Ok(q)
            };
            match op["op"].as_str().unwrap() {
                "hash" => {
                    let m = message(io, &chip, &c.4, l, known, &op["pieces"])?;
                    let d = HashDomain::new(chip, ecc.clone(), &Hd(q));
                    if op["x"].as_bool() == Some(true) {
                        let (x, zs) = d.hash(l.namespace(|| "hash"), m)?;
                        zput(l, &zs)?;
                        io.put(l, "x", x.inner())?;
                    } else {
                        let (p, zs) = d.hash_to_point(l.namespace(|| "hash"), m)?;
                        zput(l, &zs)?;
                        put(l, &io, &p.into())?;
                    }
                }
                "priv" => {
                    let q = private(l)?;
                    let m = message(io, &chip, &c.4, l, known, &op["pieces"])?;
                    let d = HashDomain::new(chip, ecc.clone(), &Hd(crate::ecc::base(1)));
                    let (p, zs) = d.hash_to_point_with_private_init(l.namespace(|| "hash"), q.inner(), m)?;
                    zput(l, &zs)?;
                    put(l, &io, &p.into())?;
                }
                kind @ ("commit" | "short" | "parts") => {
                    let b = u(&op["b"]);
                    let d = CommitDomain::new(chip.clone(), ecc.clone(), &Cd(q, b));
                    assert_eq!(d.q_init(), q);
                    let s = fe::<Fq>(&op["r"]);
                    let r = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), if known { Value::known(s) } else { Value::unknown() })?;
                    if kind == "parts" {
                        let q = private(l)?;
                        let m = message(io, &chip, &c.4, l, known, &op["pieces"])?;
                        let (p, zs) = d.hash_with_private_init(l.namespace(|| "hash"), q.inner(), m)?;
                        zput(l, &zs)?;
                        put(l, &io, &p.into())?;
                        let b = d.blinding_factor(l.namespace(|| "blind"), r)?;
                        put(l, &io, &b)?;
                    } else {
                        let m = message(io, &chip, &c.4, l, known, &op["pieces"])?;
                        if kind == "short" {
                            let (x, zs) = d.short_commit(l.namespace(|| "commit"), m, r)?;
                            zput(l, &zs)?;
                            io.put(l, "x", x.inner())?;
                        } else {
                            let (p, zs) = d.commit(l.namespace(|| "commit"), m, r)?;
                            zput(l, &zs)?;
                            let p: Point<_, _> = p;
                            put(l, &io, &p)?;
                        }
                    }
                }
                "layer" => {
                    let a = witness(l, c.3, val(known, fe(&op["v"][0])))?;
                    let b = witness(l, c.3, val(known, fe(&op["v"][1])))?;
                    <Spy<L> as MerkleInstructions<pallas::Affine, 32, K, MAXW>>::hash_layer(&spies[set], l.namespace(|| "layer"), q, u(&op["l"]), a, b)?;
                }
                "path" => {
                    let leaf = witness(l, c.3, val(known, fe(&op["leaf"])))?;
                    io.put(l, "leaf", &leaf)?;
                    let (pos, sibs) = (u(&op["pos"]) as u32, fes::<Fp>(&op["sibs"]));
                    let spies = if set == 0 { vec![spies[0].clone(), spies[1].clone()] } else { vec![spies[1].clone(), spies[0].clone()] };
                    macro_rules! go {
                        ($($n:literal, $p:literal);*) => {
                            match (sibs.len(), u(&op["par"])) {
                                $(($n, $p) => path::<L, $n, $p>(&spies, Hd(q), l, known, pos, sibs, leaf)?,)*
                                x => panic!("no path of shape {x:?}"),
                            }
                        };
                    }
                    let root = go!(1, 1; 1, 2; 2, 1; 2, 2; 3, 1; 3, 2; 3, 3; 4, 2; 4, 3; 5, 2; 5, 4; 32, 2);
                    io.put(l, "root", &root)?;
                }
                x => panic!("unknown op {x}"),
            }
        }
        Ok(())
    }
}
