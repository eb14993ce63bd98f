mod avro;
mod core;
mod gen;
mod model;
mod net;
mod props;
mod wire;
use crate::core::*;
use std::time::{Duration, Instant};

fn main() {
    let mut a = Args {
        prop: String::new(), seed: 1, cases: 1000, start: 0, budget: Duration::from_secs(20), out: "/dev/null".into(), bin: String::new(),
        scratch: std::env::temp_dir().to_string_lossy().to_string(), only: None, dict: vec![], trace: None,
    };
    let mut it = std::env::args().skip(1);
    a.prop = it.next().unwrap_or_default();
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--cases" => a.cases = v.parse().unwrap(),
            "--start" => a.start = v.parse().unwrap(),
            "--budget" => a.budget = Duration::from_secs_f64(v.parse().unwrap()),
            "--out" => a.out = v,
            "--bin" => a.bin = v,
            "--scratch" => a.scratch = v,
            "--only" => a.only = Some(v.parse().unwrap()),
            "--dict" => a.dict = std::fs::read_to_string(v).unwrap_or_default().split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--hot" => set_hot(&std::fs::read_to_string(v).unwrap_or_default()),
            "--trace" => a.trace = Some(v),
            _ => panic!("unknown argument {}", k),
        }
    }
    let f: fn(&mut H, u64, &mut Rng) = match a.prop.as_str() {
        "C01" => props::c01,
        "C02" => props::c02,
        "C03" => props::c03,
        "C04" => props::c04,
        "C05" => props::c05,
        "C06" => props::c06,
        "C07" => props::c07,
        "C08" => props::c08n,
        "C09" => props::c09,
        "C10" => props::c10,
        "C11" => props::c11,
        "C12" => props::c12,
        "C13" => props::c13,
        "C14" => props::c14,
        "C15" => props::c15,
        "C16" => props::c16,
        "C17" => props::c17,
        "C18" => props::c18,
        "C19" => props::c19,
        "C20" => props::c20,
        "C21" => props::c21,
        "C22" => props::c22,
        "C23" => props::c23,
        "C24" => props::c24,
        "C25" => props::c25,
        p => panic!("unknown property {}", p),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let seed = a.seed;
    let (s, n, budget, only) = (a.start, a.cases, a.budget, a.only);
    let mut h = H::new(a);
    h.watch();
    let t = Instant::now();
    // its own stack: the code under test recurses
    let run = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        if let Some(c) = only {
            h.case = c;
            f(&mut h, c, &mut Rng::new(seed, c));
        } else {
            for c in s..s + n {
                if t.elapsed() > budget {
                    break;
                }
                h.case = c;
                f(&mut h, c, &mut Rng::new(seed, c));
            }
        }
        h.summary();
    });
    if run.unwrap().join().is_err() {
        println!("ERROR harness crashed outside a case");
        std::process::exit(4);
    }
}
