//! Workload generator and monitors for the body-image workspace.
//!
//! usage: vh PROP --tier quick|thorough --seed N --scratch DIR --out FILE
//!           [--replay SCENARIO:CASE] [--scale THOUSANDTHS]
#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
#[macro_use]
mod ctx;
mod alloc;
mod archive;
mod cli;
mod exec;
mod flow;
mod gen;
mod interpose;
mod p;
mod rng;
mod sched;
mod watchdog;
mod wire;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use std::path::PathBuf;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    if prop == "child" {
        let a: Vec<String> = args.collect();
        std::process::exit(p::child(&a[0], &a[1..]));
    }
    let (mut tier, mut seed, mut scratch, mut out, mut only) = (String::from("quick"), 1u64, PathBuf::from("."), PathBuf::from("out.json"), None);
    let mut scale = 1000;
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--scale" => scale = v.parse().expect("scale"),
            "--tier" => tier = v,
            "--seed" => seed = v.parse().expect("seed"),
            "--scratch" => scratch = PathBuf::from(v),
            "--out" => out = PathBuf::from(v),
            "--replay" => {
                let i = v.rfind(':').expect("scenario:case");
                let c = v[i + 1..].trim_start_matches("0x");
                only = Some((v[..i].to_string(), u64::from_str_radix(c, 16).expect("case")));
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    std::fs::create_dir_all(&scratch).expect("scratch");
    let scratch = scratch.canonicalize().expect("scratch");
    ctx::install_panic_hook();
    if !cfg!(miri) { watchdog::start(&out); }
    let mut c = ctx::Ctx::new(&prop, tier == "thorough", seed, scratch, only);
    c.scale = scale;
    if !p::run(&prop, &mut c) {
        eprintln!("no such property: {}", prop);
        std::process::exit(2);
    }
    for e in &c.errors { eprintln!("harness error: {}", e); }
    for v in &c.violations { eprintln!("violation: {} {:#x}: {}", v.scenario, v.case, v.what); }
    c.write_result(&out).expect("result");
    watchdog::finished();
    // Skip destructors of leaked threads and pools.
    std::process::exit(0);
}
