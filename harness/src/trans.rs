//! `transcript` command: operation sequences on the real Blake2b transcripts.
use std::collections::HashMap;
use std::io::{self, Read, Write};

use ff::{Field, FromUniformBytes, PrimeField};
use group::Curve;
use halo2_proofs::arithmetic::CurveAffine;
use halo2_proofs::transcript::*;
use serde_json::{json, Value as J};

use crate::circ::guard;
use crate::field::*;
use crate::poly::arr;

/// Hands out a byte at a time.
struct Slow<'a>(&'a [u8]);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.0.len()).min(1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// Takes a few bytes at a time, and nothing at all beyond `room`.
struct Tight {
    out: Vec<u8>,
    room: usize,
}
impl Write for Tight {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(3).min(self.room - self.out.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Names<C: CurveAffine> {
    p: HashMap<String, C>,
    s: HashMap<String, C::Scalar>,
}
fn bytes_to_scalar<S: PrimeField>(b: &[u8]) -> Option<S> {
    let mut r = S::Repr::default();
    r.as_mut().copy_from_slice(b);
    Option::from(S::from_repr(r))
}
fn names<C: CurveAffine>() -> Names<C> {
    let mut n = Names { p: HashMap::new(), s: HashMap::new() };
    let g = C::generator();
    let at = |k: u64| -> C { (g * C::Scalar::from(k)).to_affine() };
    let xy = |c: &C| {
        let co = c.coordinates().unwrap();
        (co.x().to_repr().as_ref().to_vec(), co.y().to_repr().as_ref().to_vec())
    };
    // points whose coordinates are scalars as well
    let ok = |c: &C| bytes_to_scalar::<C::Scalar>(&xy(c).0).is_some() && bytes_to_scalar::<C::Scalar>(&xy(c).1).is_some();
    let p = (12345..).map(at).find(ok).unwrap();
    n.p.insert("P".into(), p);
    n.p.insert("-P".into(), (-p.to_curve()).to_affine());
    n.p.insert("Q".into(), at(99991));
    n.s.insert("0".into(), C::Scalar::ZERO);
    n.s.insert("1".into(), C::Scalar::ONE);
    n.s.insert("x".into(), bytes_to_scalar(&xy(&p).0).unwrap());
    n.s.insert("y".into(), bytes_to_scalar(&xy(&p).1).unwrap());
    for i in 0..3u8 {
        let r = (777u64..).map(at).find(|c| ok(c) && xy(c).1[0] == i).unwrap();
        let (x, y) = xy(&r);
        n.p.insert(format!("R{i}"), r);
        n.s.insert(format!("x{i}"), bytes_to_scalar(&x).unwrap());
        n.s.insert(format!("y{i}"), bytes_to_scalar(&y).unwrap());
        let mut h = y[1..].to_vec();
        h.push(0);
        n.s.insert(format!("h{i}"), bytes_to_scalar(&h).unwrap());
    }
    n
}

fn go<C: CurveAffine>(case: &J) -> J
where
    C::Scalar: FromUniformBytes<64>,
{
    let nm = names::<C>();
    let mut bad: Vec<J> = vec![];
    let mut out: Vec<J> = vec![];
    for (si, s) in arr(&case["seqs"]).iter().enumerate() {
        let ops: Vec<(String, String)> = arr(s).iter().map(|o| (o[0].as_str().unwrap().into(), o[1].as_str().unwrap().into())).collect();
        let r = guard(|| -> io::Result<String> {
            let mut w = Blake2bWrite::<Tight, C, Challenge255<C>>::init(Tight { out: vec![], room: 1 << 20 });
            let mut ch = vec![];
            let mut len = 0;
            for (k, n) in &ops {
                match k.as_str() {
                    "sq" => {
                        let mut fork = w_clone(&ops, &nm, ch.len());
                        let c = w.squeeze_challenge();
                        let sc: C::Scalar = c.get_scalar();
                        let typed: ChallengeScalar<C, ()> = c.as_challenge_scalar();
                        let f: ChallengeScalar<C, ()> = fork.squeeze_challenge_scalar();
                        if sc.to_repr().as_ref() != &c[..] || *typed != sc || *f != sc {
                            return Ok(format!("!challenge forms disagree"));
                        }
                        ch.push(*c);
                    }
                    "cp" => w.common_point(nm.p[n])?,
                    "wp" => {
                        w.write_point(nm.p[n])?;
                        len += 32
                    }
                    "cs" => w.common_scalar(nm.s[n])?,
                    _ => {
                        w.write_scalar(nm.s[n])?;
                        len += 32
                    }
                }
            }
            let last = *w.squeeze_challenge();
            ch.push(last);
            let proof = w.finalize().out;
            if proof.len() != len {
                return Ok(format!("!proof of {} bytes for {} sent", proof.len(), len));
            }
            let mut rd = Blake2bRead::<Slow<'_>, C, Challenge255<C>>::init(Slow(&proof));
            let mut got = vec![];
            for (k, n) in &ops {
                match k.as_str() {
                    "sq" => got.push(*rd.squeeze_challenge()),
                    "cp" => rd.common_point(nm.p[n])?,
                    "wp" => {
                        if rd.read_point()? != nm.p[n] {
                            return Ok("!point read differs".into());
                        }
                    }
                    "cs" => rd.common_scalar(nm.s[n])?,
                    _ => {
                        if rd.read_scalar()? != nm.s[n] {
                            return Ok("!scalar read differs".into());
                        }
                    }
                }
            }
            got.push(*rd.squeeze_challenge());
            if got != ch {
                return Ok("!prover and verifier challenges differ".into());
            }
            Ok(last.iter().map(|b| format!("{b:02x}")).collect())
        });
        match r {
            Ok(Ok(x)) if !x.starts_with('!') => out.push(json!(x)),
            Ok(Ok(x)) => bad.push(json!([si, x])),
            Ok(Err(e)) => bad.push(json!([si, e.to_string()])),
            Err(e) => bad.push(json!([si, e])),
        }
        if !bad.is_empty() {
            break;
        }
    }
    json!({"id": case["id"], "bad": bad, "ch": out})
}
/// The same transcript, rebuilt up to the n-th squeeze (the writers are cloned on the way).
fn w_clone<C: CurveAffine>(ops: &[(String, String)], nm: &Names<C>, n: usize) -> Blake2bWrite<Vec<u8>, C, Challenge255<C>>
where
    C::Scalar: FromUniformBytes<64>,
{
    let mut w = Blake2bWrite::<Vec<u8>, C, Challenge255<C>>::init(vec![]);
    let mut i = 0;
    for (k, x) in ops {
        let mut c = w.clone();
        match k.as_str() {
            "sq" => {
                if i == n {
                    return c;
                }
                i += 1;
                c.squeeze_challenge();
            }
            "cp" | "wp" => c.common_point(nm.p[x]).unwrap(),
            _ => c.common_scalar(nm.s[x]).unwrap(),
        }
        w = c;
    }
    w
}

/// Encodings that must be refused, and refused without a panic.
fn refuse<C: CurveAffine>(case: &J) -> J
where
    C::Scalar: FromUniformBytes<64>,
{
    let nm = names::<C>();
    let mut bad = vec![];
    let mut n = 0;
    let mut sc = |b: &[u8], why: &str, want: bool| {
        n += 1;
        let r = guard(|| Blake2bRead::<Slow<'_>, C, Challenge255<C>>::init(Slow(b)).read_scalar().is_ok());
        if r != Ok(want) {
            bad.push(json!(["scalar", why, format!("{r:?}")]));
        }
    };
    let minus = (-C::Scalar::ONE).to_repr().as_ref().to_vec();
    sc(&minus, "largest", true);
    sc(C::Scalar::ZERO.to_repr().as_ref(), "zero", true);
    let add = |b: &[u8], mut k: u64| {
        let mut b = b.to_vec();
        for x in b.iter_mut() {
            let t = *x as u64 + (k & 255);
            *x = t as u8;
            k = (k >> 8) + (t >> 8);
        }
        b
    };
    for k in 1..40 {
        sc(&add(&minus, k), "not reduced", false);
    }
    sc(&[0xff; 32], "all ones", false);
    for bit in 255..256 {
        let mut b = [0u8; 32];
        b[bit / 8] = 1 << (bit % 8);
        sc(&b, "high bit", false);
    }
    for l in 0..32 {
        sc(&minus[..l], "truncated", false);
    }
    let mut pt = |b: &[u8], why: &str, want: bool| {
        n += 1;
        let r = guard(|| Blake2bRead::<Slow<'_>, C, Challenge255<C>>::init(Slow(b)).read_point().is_ok());
        if r != Ok(want) {
            bad.push(json!(["point", why, format!("{r:?}")]));
        }
    };
    let p = nm.p["P"].to_bytes().as_ref().to_vec();
    pt(&p, "valid", true);
    pt(nm.p["-P"].to_bytes().as_ref(), "valid", true);
    pt(C::identity().to_bytes().as_ref(), "identity", false);
    for l in 0..32 {
        pt(&p[..l], "truncated", false);
    }
    let pm = (-C::Base::ONE).to_repr().as_ref().to_vec();
    for k in 1..20 {
        pt(&add(&pm, k), "x not reduced", false);
    }
    // x not on the curve (or for the toy curve: only what from_bytes refuses)
    let mut x = C::Base::from(1);
    let mut off = 0;
    while off < 20 && x != C::Base::from(400) {
        let b = x.to_repr().as_ref().to_vec();
        let mut r = C::Repr::default();
        r.as_mut().copy_from_slice(&b);
        if bool::from(C::from_bytes(&r).is_none()) {
            pt(&b, "x not on the curve", false);
            off += 1;
        }
        x += C::Base::ONE;
    }
    let mut w = |f: &dyn Fn(&mut Blake2bWrite<Tight, C, Challenge255<C>>) -> io::Result<()>, room: usize, why: &str, want: bool| {
        n += 1;
        let r = guard(|| f(&mut Blake2bWrite::init(Tight { out: vec![], room })).is_ok());
        if r != Ok(want) {
            bad.push(json!(["write", why, format!("{r:?}")]));
        }
    };
    for room in 0..40 {
        w(&|t| t.write_point(nm.p["P"]), room, "point into little room", room >= 32);
        w(&|t| t.write_scalar(nm.s["x"]), room, "scalar into little room", room >= 32);
    }
    w(&|t| t.write_point(C::identity()), 100, "identity", false);
    w(&|t| t.common_point(C::identity()), 100, "identity absorbed", false);
    n += 1;
    let r = guard(|| Blake2bRead::<Slow<'_>, C, Challenge255<C>>::init(Slow(&[])).common_point(C::identity()).is_ok());
    if r != Ok(false) {
        bad.push(json!(["read", "identity absorbed", format!("{r:?}")]));
    }
    json!({"id": case["id"], "bad": bad, "n": n})
}

pub fn run(case: &J) -> J {
    let neg = case["neg"].as_bool() == Some(true);
    match case["curve"].as_str().unwrap() {
        "vesta" if neg => refuse::<pasta_curves::EqAffine>(case),
        "pallas" if neg => refuse::<pasta_curves::EpAffine>(case),
        "toy" if neg => refuse::<ABB>(case),
        "vesta" => go::<pasta_curves::EqAffine>(case),
        "pallas" => go::<pasta_curves::EpAffine>(case),
        _ => go::<ABB>(case),
    }
}
