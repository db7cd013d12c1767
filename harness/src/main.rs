#[macro_use]
mod field;
mod arith;
mod asg;
mod batch;
mod blind;
mod bound;
mod circ;
mod poly;
mod prog;
mod rec;
mod trans;
mod vk;

use serde_json::Value as J;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HV_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let input: J = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("input")).expect("json");
    let cases = input.as_array().expect("array of cases");
    let f: fn(&J) -> J = match a[1].as_str() {
        "circuit" => circ::run_case,
        "params" => poly::params,
        "batch" => batch::run,
        "blind" => blind::run,
        "predict" => batch::predict,
        "transcript" => trans::run,
        "arith" => arith::run,
        "asg" => asg::run,
        "vk" => vk::run,
        "bound" => bound::run,
        "size" => bound::size,
        "msm" => poly::msm,
        "ipa" => poly::ipa,
        "open" => poly::open,
        x => panic!("unknown command {x}"),
    };
    let out: Vec<J> = cases.iter().map(f).collect();
    std::fs::write(&a[3], serde_json::to_string(&out).unwrap()).expect("output");
}
