//! `asg` command: operations on `Assigned` and `Value` in every operand form.
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::Assigned;
use serde_json::{json, Value as J};

use crate::circ::guard;
use crate::field::*;
use crate::poly::{arr, u};

type F = F97;
type A = Assigned<F>;

fn asg(j: &J) -> A {
    let a = arr(j);
    match a.len() {
        0 => Assigned::Zero,
        1 => Assigned::Trivial(F::from(u(&a[0]))),
        _ => Assigned::Rational(F::from(u(&a[0])), F::from(u(&a[1]))),
    }
}
/// [-1] is the unknown value
fn known(j: &J) -> bool {
    j[0].as_i64() != Some(-1)
}
fn val(j: &J) -> Value<A> {
    if known(j) {
        Value::known(asg(j))
    } else {
        Value::unknown()
    }
}
fn vf(j: &J) -> Value<F> {
    if known(j) {
        Value::known(F::from(u(&j[0])))
    } else {
        Value::unknown()
    }
}
fn out<T>(v: Value<T>, f: impl Fn(T) -> i64) -> i64 {
    let mut o = -1;
    v.map(|x| o = f(x));
    o
}
fn ev(a: A) -> i64 {
    a.evaluate().get() as i64
}
fn evf(a: F) -> i64 {
    a.get() as i64
}

macro_rules! forms {
    ($op:tt, $asg:tt, $form:expr, $a:expr, $b:expr) => {{
        let (ja, jb) = ($a, $b);
        match $form {
            "aa" => ev(asg(ja) $op asg(jb)),
            "ar" => ev(asg(ja) $op &asg(jb)),
            "af" => ev(asg(ja) $op F::from(u(&jb[0]))),
            "rf" => ev(&asg(ja) $op F::from(u(&jb[0]))),
            "as" => { let mut x = asg(ja); x $asg asg(jb); ev(x) }
            "asr" => { let mut x = asg(ja); x $asg &asg(jb); ev(x) }
            "vaa" => out(val(ja) $op val(jb), ev),
            "var" => out(val(ja) $op val(jb).as_ref(), ev),
            "vab" => out(val(ja) $op &val(jb), ev),
            "vaf" => out(val(ja) $op vf(jb), ev),
            "va1" => out(val(ja) $op F::from(u(&jb[0])), ev),
            "vrf" => out(val(ja).as_ref() $op vf(jb), ev),
            "vr1" => out(val(ja).as_ref() $op F::from(u(&jb[0])), ev),
            "vff" => out(vf(ja) $op vf(jb), evf),
            x => panic!("form {x}"),
        }
    }};
}

fn tree(t: &J) -> A {
    match t[0].as_str().unwrap() {
        "leaf" => asg(&t[1]),
        "+" => tree(&t[1]) + tree(&t[2]),
        "-" => tree(&t[1]) - tree(&t[2]),
        "*" => tree(&t[1]) * tree(&t[2]),
        "neg" => -tree(&t[1]),
        "double" => tree(&t[1]).double(),
        "square" => tree(&t[1]).square(),
        "cube" => tree(&t[1]).cube(),
        "invert" => tree(&t[1]).invert(),
        x => panic!("tree {x}"),
    }
}

fn one(s: &J) -> J {
    let (op, form, a, b) = (s[0].as_str().unwrap(), s[1].as_str().unwrap_or(""), &s[2], &s[3]);
    let r: i64 = match op {
        "tree" => ev(tree(a)),
        "treeeq" => (tree(a) == tree(b)) as i64,
        "treezero" => tree(a).is_zero_vartime() as i64,
        "+" => match form {
            "ra" => ev(&asg(a) + asg(b)),
            "rr" => ev(&asg(a) + &asg(b)),
            "vra" => out(val(a).as_ref() + val(b), ev),
            "vrr" => out(&val(a) + &val(b), ev),
            "vba" => out(&val(a) + val(b), ev),
            _ => forms!(+, +=, form, a, b),
        },
        "-" => match form {
            "ra" => ev(&asg(a) - asg(b)),
            "rr" => ev(&asg(a) - &asg(b)),
            "vra" => out(val(a).as_ref() - val(b), ev),
            "vrr" => out(&val(a) - &val(b), ev),
            "vba" => out(&val(a) - val(b), ev),
            _ => forms!(-, -=, form, a, b),
        },
        "*" => forms!(*, *=, form, a, b),
        "eq" => (asg(a) == asg(b)) as i64,
        "ne" => (asg(a) != asg(b)) as i64,
        "zero" => asg(a).is_zero_vartime() as i64,
        // a fraction is what its numerator and denominator say
        "parts" => {
            let x = asg(a);
            ev(Assigned::from((x.numerator(), x.denominator().unwrap_or(F::from(1)))))
        }
        "neg" => match form {
            "a" => ev(-asg(a)),
            "r" => ev(-&asg(a)),
            _ => out(-val(a), ev),
        },
        "double" | "square" | "cube" | "invert" => {
            if form == "a" {
                let x = asg(a);
                ev(match op {
                    "double" => x.double(),
                    "square" => x.square(),
                    "cube" => x.cube(),
                    _ => x.invert(),
                })
            } else {
                let x = val(a);
                out(
                    match op {
                        "double" => x.double(),
                        "square" => x.square(),
                        "cube" => x.cube(),
                        _ => x.invert(),
                    },
                    ev,
                )
            }
        }
        "id" => match form {
            "evaluate" => out(val(a).evaluate(), evf),
            "to" => out(val(a).to_field(), ev),
            "into" => out(vf(a).into_field(), ev),
            "from" => out(Value::<A>::from(vf(a)), ev),
            "copied" => out(val(a).as_ref().copied(), ev),
            "cloned" => out(val(a).as_ref().cloned(), ev),
            "andthen" => out(val(a).and_then(Value::known), ev),
            "mut" => {
                let mut x = val(a);
                out(x.as_mut().copied(), ev)
            }
            x => panic!("form {x}"),
        },
        "thenunknown" => out(val(a).and_then(|_| Value::<A>::unknown()), ev),
        "zip1" => out(val(a).zip(val(b)).map(|x| x.0), ev),
        "zip2" => out(val(a).zip(val(b)).map(|x| x.1), ev),
        "unzip1" => out(val(a).zip(val(b)).unzip().0, ev),
        "unzip2" => out(val(a).zip(val(b)).unzip().1, ev),
        "tarr" => {
            let x = val(a).zip(val(b)).map(|(x, y)| [x, y]).transpose_array();
            100 * (out(x[0], ev) + 1) + out(x[1], ev) + 1
        }
        "tvec" => {
            let x = val(a).zip(val(b)).map(|(x, y)| vec![x, y]).transpose_vec(2);
            assert_eq!(x.len(), 2);
            100 * (out(x[0], ev) + 1) + out(x[1], ev) + 1
        }
        "collect" => out([val(a), val(b)].into_iter().collect::<Value<Vec<A>>>(), |v| 100 * (ev(v[0]) + 1) + ev(v[1]) + 1),
        // assertions look only at known values
        "assert" => guard(|| val(a).assert_if_known(|x| x.is_zero_vartime())).is_ok() as i64,
        "errif" => val(a).error_if_known_and(|x| x.is_zero_vartime()).is_err() as i64,
        x => panic!("op {x}"),
    };
    json!(r)
}

pub fn run(case: &J) -> J {
    let outs: Vec<J> = arr(&case["items"])
        .iter()
        .map(|s| match guard(|| one(s)) {
            Ok(v) => v,
            Err(_) => json!(-2),
        })
        .collect();
    json!({"id": case["id"], "outs": outs})
}
