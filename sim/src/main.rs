#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod driver;
mod gen;
mod iosc;
mod ops;
mod opsf;
mod rngsc;
mod sendsc;
mod spec;
mod user;
mod world;

use simrt::mem;
use std::collections::HashMap;

#[global_allocator]
static A: mem::SimAlloc = mem::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o: HashMap<String, String> = HashMap::new();
    for a in &args[2.min(args.len())..] {
        if let Some((k, v)) = a.split_once('=') {
            o.insert(k.to_string(), v.to_string());
        }
    }
    let num = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let prop = num("prop", 1) as u8;
    let seed = num("seed", 1);
    let rel = !cfg!(debug_assertions);
    match args.get(1).map(|s| s.as_str()) {
        Some("batch") => {
            let b = driver::Batch {
                prop,
                seed,
                from: num("from", 0),
                to: num("to", 1000),
                stride: num("stride", 1),
                rel,
                workers: num("workers", 8),
                secs: o.get("secs").map(|x| x.parse().unwrap()).unwrap_or(60.),
            };
            driver::batch(&b, &o["out"]);
        }
        Some("show") => print!("{}", driver::make(prop, seed, num("index", 0), rel).text()),
        Some("one") => {
            let s = driver::make(prop, seed, num("index", 0), rel);
            let r = driver::run_one(driver::shared(), &s);
            println!("status {} class {} hash {:x} points {} switches {} ops {}\n{}", r.status, r.class, r.hash, r.points, r.switches, r.ops, r.msg);
        }
        Some("min") => {
            let i = num("index", 0);
            let s = driver::make(prop, seed, i, rel);
            match driver::minimise(&s, num("secs", 20) as f64, true) {
                Some(m) => {
                    let t = driver::replay_text(&m, &format!("property C{:02} VERIF_SEED={} run {} ({} runs to minimise)", prop, seed, i, m.tries));
                    std::fs::write(&o["out"], t).unwrap();
                    println!("{}: {}", m.out.class, m.out.msg);
                }
                None => {
                    println!("run {} does not violate the property", i);
                    std::process::exit(3);
                }
            }
        }
        Some("replay") => std::process::exit(driver::replay(&args[2])),
        Some("names") => {
            // names of operations and faults, for the evidence
            let scen = num("scen", 0) as u8;
            for c in 0..256u16 {
                let n = spec::name(scen, c);
                if n.starts_with("op") && n[2..].parse::<u16>().is_ok() {
                    break;
                }
                println!("op {} {}", c, n);
            }
            for k in 0..simrt::rt::NFAULT {
                println!("fault {} {}", k, driver::fault_name(k));
            }
        }
        _ => {
            eprintln!("usage: sim batch|show|one|min|replay|names key=value..");
            std::process::exit(2);
        }
    }
}
