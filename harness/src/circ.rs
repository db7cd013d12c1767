//! `circuit` command: run one scripted circuit through whatever parts of the library the
//! case asks for, and report what was observed.
use std::panic::{catch_unwind, AssertUnwindSafe};

use ff::{Field, PrimeField};
use group::Curve;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Guard, Params, MSM};
use halo2_proofs::transcript::*;
use serde_json::{json, Map, Value as J};

use crate::field::*;
use crate::prog::*;
use crate::rec::*;

type C = ABB;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        format!("panic: {m}")
    })
}
pub fn errs(e: &Error) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
        + &match e {
            Error::TableError(t) => {
                // kind, then the columns (and lengths) it names
                let d = format!("{t:?}");
                let kind = d.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
                let nums: Vec<String> = d.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit())).map(|w| w.to_string()).collect();
                let n = if kind == "UnevenColumnLengths" { 4 } else { 1 };
                format!(":{kind}:{}", nums[..n.min(nums.len())].join(","))
            }
            _ => String::new(),
        }
}
pub fn flat<T>(r: Result<Result<T, Error>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(errs(&e)),
        Err(p) => Err(p),
    }
}
pub fn res<T>(r: &Result<T, String>) -> J {
    match r {
        Ok(_) => json!("ok"),
        Err(e) => json!(e),
    }
}

pub fn record<P: FloorPlanner>(c: &PC<P>, inst: Option<Vec<Vec<F>>>, usable: Option<usize>) -> J {
    let mut cs = ConstraintSystem::<F>::default();
    let cfg = PC::<P>::configure(&mut cs);
    let cn = canon();
    let consts: Vec<Column<Fixed>> = prog().consts.iter().map(|i| cn.fix[*i]).collect();
    let mut rec = Recorder::new(inst, usable);
    INST_READ.lock().unwrap().clear();
    let r = flat(guard(|| P::synthesize(&mut rec, c, cfg, consts)));
    let reads: Vec<i64> = INST_READ.lock().unwrap().iter().map(|x| x.map(|v| v as i64).unwrap_or(-1)).collect();
    json!({"res": res(&r), "ev": rec.ev, "iread": reads})
}

pub fn params_dlogs(params: &Params<C>) -> J {
    let mut b = vec![];
    params.write(&mut b).unwrap();
    let k = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let n = 1usize << k;
    let pt = |i: usize| {
        let o = 4 + 32 * i;
        let mut r = [0u8; 32];
        r.copy_from_slice(&b[o..o + 32]);
        BB::from_repr(r).unwrap().get()
    };
    json!({
        "k": k,
        "g": (0..n).map(pt).collect::<Vec<_>>(),
        "gl": (n..2*n).map(pt).collect::<Vec<_>>(),
        "w": pt(2*n), "u": pt(2*n+1),
    })
}

/// Numbers in `<..>` of the commitments listed under `name: [..]` in a pinned VK.
pub fn pinned_list(s: &str, from: &str) -> Vec<u64> {
    let i = match s.find(from) {
        Some(i) => i + from.len(),
        None => return vec![],
    };
    let rest = &s[i..];
    let end = rest.find(']').unwrap();
    rest[..end]
        .split('<')
        .skip(1)
        .map(|x| x[..x.find('>').unwrap()].parse().unwrap())
        .collect()
}

pub fn read_verify(params: &Params<C>, vk: &VerifyingKey<C>, insts: &[Vec<Vec<F>>], proof: &[u8]) -> (Result<(), String>, Vec<(&'static str, u64)>, usize) {
    let iv: Vec<Vec<&[F]>> = insts.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect();
    let ir: Vec<&[&[F]]> = iv.iter().map(|p| &p[..]).collect();
    let mut cur = std::io::Cursor::new(proof);
    let mut t = Rt::new(Blake2bRead::<_, C, Challenge255<C>>::init(&mut cur));
    let r = flat(guard(|| verify_proof(params, vk, SingleVerifier::new(params), &ir, &mut t)));
    let ev = std::mem::take(&mut t.ev);
    drop(t);
    (r, ev, cur.position() as usize)
}

/// A strategy that hands back the un-evaluated final check: the MSM evaluated with the full
/// s-vector, so the spec can compare the residue itself and not just pass/fail.
pub struct Residue<'p> {
    msm: MSM<'p, C>,
}
impl<'p> Residue<'p> {
    pub fn new(params: &'p Params<C>) -> Self {
        Residue { msm: params.empty_msm() }
    }
}
impl<'p> VerificationStrategy<'p, C> for Residue<'p> {
    type Output = bool;
    fn process<E: EncodedChallenge<C>>(self, f: impl FnOnce(MSM<'p, C>) -> Result<Guard<'p, C, E>, Error>) -> Result<bool, Error> {
        let g = f(self.msm)?;
        Ok(g.use_challenges().eval())
    }
}

pub fn run_case(case: &J) -> J {
    crate::poly::with_threads(case, || run_case_(case))
}
fn run_case_(case: &J) -> J {
    let p = Prog::parse(&case["prog"]);
    let (v1, traced) = (p.v1, p.traced);
    set_prog(p);
    match (v1, traced) {
        (true, false) => run::<V1>(case),
        (false, false) => run::<Simple>(case),
        (true, true) => run::<TV1>(case),
        (false, true) => run::<TSimple>(case),
    }
}

fn want(case: &J, w: &str) -> bool {
    case["want"].as_array().map(|a| a.iter().any(|x| x == w)).unwrap_or(false)
}

fn run<P: FloorPlanner>(case: &J) -> J {
    let p = prog();
    let mut out = Map::new();
    let nv = p.inst.len().max(case["variants"].as_u64().unwrap_or(1) as usize);
    out.insert("id".into(), case["id"].clone());
    let conf = guard(|| {
        let mut cs = ConstraintSystem::<F>::default();
        PC::<P>::configure(&mut cs);
        (cs.degree(), cs.blinding_factors(), cs.minimum_rows())
    });
    match &conf {
        Ok((d, b, m)) => {
            out.insert("cs".into(), json!({"degree": d, "bf": b, "minrows": m}));
        }
        Err(e) => {
            out.insert("conferr".into(), json!(e));
            return J::Object(out);
        }
    }
    if want(case, "rec") {
        let mut runs = vec![];
        for v in 0..nv {
            let c = PC::<P>::new(v);
            let mut r = record(&c, Some(p.instances(v)), None);
            r["known"] = json!(true);
            r["variant"] = json!(v);
            runs.push(r);
        }
        let c = PC::<P>::new(0).without_witnesses();
        let mut r = record(&c, None, None);
        r["known"] = json!(false);
        r["variant"] = json!(0);
        runs.push(r);
        out.insert("rec".into(), J::Array(runs));
    }
    if want(case, "mock") {
        let mut ms = vec![];
        for v in 0..nv {
            let c = PC::<P>::new(v);
            let m = flat(guard(|| MockProver::run(p.k, &c, p.instances(v))));
            ms.push(match m {
                Err(e) => json!({"res": e, "fail": []}),
                Ok(m) => match guard(|| m.verify()) {
                    Err(e) => json!({"res": e, "fail": []}),
                    Ok(Ok(())) => json!({"res":"ok","fail":[]}),
                    Ok(Err(fs)) => {
                        // pretty-printing the failures must not fall over either
                        let emit = guard(|| m.assert_satisfied()).err().unwrap_or_else(|| "returned".into());
                        let txt = fs.iter().map(|f| f.to_string().len()).sum::<usize>();
                        let _ = txt;
                        if emit == "panic: circuit was not satisfied" {
                            json!({"res":"ok","fail": fs.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>()})
                        } else {
                            json!({"res": format!("assert_satisfied: {emit}"), "fail": []})
                        }
                    }
                },
            });
        }
        out.insert("mock".into(), J::Array(ms));
    }
    if want(case, "vk") || want(case, "proof") {
        let params = Params::<C>::new(p.k);
        out.insert("params".into(), params_dlogs(&params));
        let c = PC::<P>::new(0);
        let c0 = PC::<P>::new(0).without_witnesses();
        let vk = flat(guard(|| keygen_vk(&params, if want(case, "keygen_known") { &c } else { &c0 })));
        out.insert("vkres".into(), res(&vk));
        if let Ok(vk) = vk {
            let pin = format!("{:?}", vk.pinned());
            out.insert(
                "vk".into(),
                json!({
                    "fixed": pinned_list(&pin, "fixed_commitments: ["),
                    "sigma": pinned_list(&pin, "permutation: VerifyingKey { commitments: ["),
                    "pinned": pin,
                }),
            );
            if want(case, "proof") {
                let mut proofs = vec![];
                let sets: Vec<J> = case["proofs"].as_array().cloned().unwrap_or_else(|| vec![json!({"vs":[0]})]);
                let pk = flat(guard(|| keygen_pk(&params, vk.clone(), &c0)));
                out.insert("pkres".into(), res(&pk));
                if let Ok(pk) = pk {
                    for (i, s) in sets.iter().enumerate() {
                        proofs.push(prove_one::<P>(&params, &pk, s, i as u64 + case["seed"].as_u64().unwrap_or(0)));
                    }
                }
                out.insert("proofs".into(), J::Array(proofs));
            }
        }
    }
    J::Object(out)
}

fn prove_one<P: FloorPlanner>(params: &Params<C>, pk: &ProvingKey<C>, s: &J, seed: u64) -> J {
    let p = prog();
    let vs: Vec<usize> = s["vs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let circuits: Vec<PC<P>> = vs.iter().map(|v| PC::<P>::new(*v)).collect();
    let insts: Vec<Vec<Vec<F>>> = vs.iter().map(|v| p.instances(*v)).collect();
    let iv: Vec<Vec<&[F]>> = insts.iter().map(|p| p.iter().map(|c| &c[..]).collect()).collect();
    let ir: Vec<&[&[F]]> = iv.iter().map(|p| &p[..]).collect();
    let mut t = Rt::new(Blake2bWrite::<_, C, Challenge255<C>>::init(vec![]));
    let r = flat(guard(|| create_proof(params, pk, &circuits, &ir, Rng(seed * 1000 + 7), &mut t)));
    let mut o = Map::new();
    o.insert("vs".into(), json!(vs));
    o.insert("res".into(), res(&r));
    o.insert("pev".into(), evj(&t.ev));
    o.insert("inst".into(), json!(insts.iter().map(|a| a.iter().map(|b| b.iter().map(|x| x.get()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let bytes = t.t.finalize();
    o.insert("len".into(), json!(bytes.len()));
    if r.is_ok() {
        let (vr, vev, pos) = read_verify(params, pk.get_vk(), &insts, &bytes);
        o.insert("vres".into(), res(&vr));
        o.insert("vev".into(), evj(&vev));
        o.insert("vpos".into(), json!(pos));
        // substitute other public inputs
        let mut alt = vec![];
        for a in s["alt"].as_array().cloned().unwrap_or_default() {
            let mut ins = insts.clone();
            let (pi, ci, ri, v) = (
                a[0].as_u64().unwrap() as usize,
                a[1].as_u64().unwrap() as usize,
                a[2].as_u64().unwrap() as usize,
                a[3].as_u64().unwrap(),
            );
            if ins[pi][ci].len() <= ri {
                ins[pi][ci].resize(ri + 1, F::ZERO);
            }
            ins[pi][ci][ri] = F::from(v);
            let (r, _, _) = read_verify(params, pk.get_vk(), &ins, &bytes);
            alt.push(res(&r));
        }
        o.insert("altres".into(), J::Array(alt));
        // tamper with individual proof elements (32-byte words)
        let mut tam = vec![];
        for a in s["tamper"].as_array().cloned().unwrap_or_default() {
            let (w, d) = (a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap());
            let nw = bytes.len() / 32;
            let w = w % nw;
            let mut b2 = bytes.clone();
            let mut rp = [0u8; 32];
            rp.copy_from_slice(&b2[32 * w..32 * w + 32]);
            let x = BB::from_repr(rp).unwrap() + F::from(d);
            b2[32 * w..32 * w + 32].copy_from_slice(&x.to_repr());
            let (r, _, _) = read_verify(params, pk.get_vk(), &insts, &b2);
            tam.push(json!([w, d, res(&r)]));
        }
        o.insert("tam".into(), J::Array(tam));
    }
    J::Object(o)
}

#[allow(unused)]
pub fn to_affine(c: CBB) -> ABB {
    c.to_affine()
}
#[allow(unused)]
pub fn zero() -> F {
    F::ZERO
}
