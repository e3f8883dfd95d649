//! Runtime monitors for the `deflate` crate. See DESIGN.md.

mod decode;
mod enc;
mod gen;
mod inflate;
mod p_data;
mod p_env;
mod p_fault;
mod p_long;
mod p_quality;
mod p_sweep;
mod plan;
mod rng;
mod run;
mod sink;
mod sums;

use run::{Cfg, Prop};
use std::time::Duration;

#[global_allocator]
static ALLOC: run::Counting = run::Counting;

fn props() -> Vec<&'static Prop> {
    vec![
        &p_data::C01,
        &p_data::C02,
        &p_data::C03,
        &p_data::C04,
        &p_data::C05,
        #[cfg(feature = "gz")]
        &p_data::C06,
        &p_data::C07,
        &p_data::C08,
        &p_data::C09,
        &p_fault::C10,
        &p_fault::C11,
        &p_fault::C12,
        &p_data::C13,
        &p_env::C14,
        &p_quality::C15,
        &p_quality::C16,
        &p_quality::C17,
        &p_quality::C18,
        &p_quality::C19,
        &p_quality::C20,
        &p_env::C21,
        &p_env::C22,
        &p_env::C23,
        &p_env::C24,
    ]
}

/// For the 32-bit platform without an operating system: one case, its digest. A panic is a trap there.
#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn wide_case(idx: u64, seed: u64) -> u64 {
    p_env::c23_wide_case(idx, seed).0.map_or(0, |r| r.0)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("platform") {
        // digests only, no threads, no files: what runs under the interpreter
        let seed: u64 = args[1].parse().unwrap();
        let lo: u64 = args[2].parse().unwrap();
        let hi: u64 = args[3].parse().unwrap();
        for i in lo..hi {
            let (h, show, _, _) = p_env::c23_case(i, seed);
            println!("D {} {:016x} {}", i, h, if h == 0 { show } else { String::new() });
        }
        return;
    }
    #[cfg(not(target_arch = "wasm32"))]
    if args.first().map(|s| s.as_str()) == Some("fresh") {
        p_env::fresh_process(args[1].parse().unwrap(), args[2].parse().unwrap());
        return;
    }
    let mut id = String::new();
    let mut cfg = Cfg {
        seed: 1,
        thorough: false,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        deadline: Duration::from_secs(3600),
        cpu_limit: 60,
        scale: 1.0,
        only: None,
        stream_filter: None,
        out: None,
        max_violations: 3,
        emit: None,
    };
    let mut digests: Option<String> = None;
    let mut stream: Option<String> = None;
    let mut index: Option<u64> = None;
    let mut i = 0;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--prop" => id = v,
            "--seed" => cfg.seed = v.parse().expect("harness: seed"),
            "--tier" => cfg.thorough = v == "thorough",
            "--threads" => cfg.threads = v.parse().expect("harness: threads"),
            "--deadline" => cfg.deadline = Duration::from_secs(v.parse().expect("harness: deadline")),
            "--cpu-limit" => cfg.cpu_limit = v.parse().expect("harness: cpu limit"),
            "--scale" => cfg.scale = v.parse().expect("harness: scale"),
            "--out" => cfg.out = Some(v),
            "--emit" => cfg.emit = Some(v),
            "--digests" => digests = Some(v),
            "--stream" => stream = Some(v),
            "--index" => index = Some(v.parse().expect("harness: index")),
            "--max-violations" => cfg.max_violations = v.parse().expect("harness: max"),
            "--digest-only" => {
                id = "C22D".to_string();
            }
            x => {
                eprintln!("harness: unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let p: &'static Prop = if id == "C22D" {
        &p_env::C22D
    } else {
        match props().into_iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("harness: no property {}", id);
                std::process::exit(2);
            }
        }
    };
    if let Some(s) = &stream {
        let Some(k) = p.streams.iter().position(|x| x.name == s) else {
            eprintln!("harness: no workload {}", s);
            std::process::exit(2);
        };
        cfg.stream_filter = Some(k);
        if let Some(ix) = index {
            cfg.only = Some((k, ix));
        }
    }
    let r = run::run(p, &cfg);
    if let Some(d) = digests {
        let mut v = r.obs.digests.clone();
        v.sort();
        let s: String = v.iter().map(|(s, i, h)| format!("{} {} {:016x}\n", s, i, h)).collect();
        if std::fs::write(&d, s).is_err() {
            eprintln!("harness: cannot write {}", d);
            std::process::exit(2);
        }
    }
    let j = r.json(p);
    match &cfg.out {
        Some(o) => {
            if std::fs::write(o, &j).is_err() {
                eprintln!("harness: cannot write {}", o);
                std::process::exit(2);
            }
        }
        None => print!("{}", j),
    }
    if r.violations.iter().any(|v| v.msg.contains("harness: ")) {
        for v in &r.violations {
            eprintln!("{}", v.msg);
        }
        std::process::exit(2);
    }
    std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
}
