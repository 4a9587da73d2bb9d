mod adsr;
mod approx;
mod biquad;
mod bits;
mod bounds;
mod conc;
mod core;
mod dev;
mod level;
mod lines;
mod mem;
mod osc;
mod reent;
mod work;
use crate::core::*;
use std::io::BufRead;

#[global_allocator]
static HEAP: work::Heap = work::Heap;

fn dom(name: &str) -> Box<dyn Dom> {
    match name {
        "adsr" => Box::new(adsr::Adsr::new()),
        "approx" => Box::new(approx::Approx::new()),
        "biquad" => Box::new(biquad::Bq::new()),
        "bits" => Box::new(bits::Bits::new()),
        "bounds" => Box::new(bounds::Bounds::new()),
        "conc" => Box::new(conc::Conc::new()),
        "dev" => Box::new(dev::Dev::new()),
        "osc" => Box::new(osc::Osc::new()),
        "level" => Box::new(level::Level::new()),
        "reent" => Box::new(reent::Reent::new()),
        "work" => Box::new(work::Work),
        "mem" => Box::new(mem::Mem::new()),
        _ => panic!("unknown domain {}", name),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let out = get("--out").expect("--out");
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let mut run = Run::new(&out, seed, thorough);
    match a[1].as_str() {
        "record" => match a[2].as_str() {
            "C01" => mem::c01(&mut run),
            "C02" => mem::c02(&mut run),
            "C03" => mem::c03(&mut run),
            "C04" => mem::c04(&mut run),
            "C05" => mem::c05(&mut run),
            "C06" => dev::c06(&mut run),
            "C07" => dev::c07(&mut run),
            "C08" => dev::c08(&mut run),
            "C09" => dev::c09(&mut run),
            "C10" => dev::c10(&mut run),
            "C11" => biquad::c11(&mut run),
            "C12" => biquad::c12(&mut run),
            "C13" => biquad::c13(&mut run),
            "C14" => adsr::run(&mut run, 14),
            "C15" => adsr::run(&mut run, 15),
            "C16" => adsr::run(&mut run, 16),
            "C17" => adsr::run(&mut run, 17),
            "C18" => osc::c18(&mut run),
            "C19" => osc::c19(&mut run),
            "C20" => osc::c20(&mut run),
            "C21" => osc::c21(&mut run),
            "C23" => bits::c23(&mut run),
            "C24" => bits::c24(&mut run),
            "C25" => bits::c25(&mut run),
            "C28" => approx::c28(&mut run),
            "C31" => approx::c31(&mut run),
            "C33" => approx::c33(&mut run),
            "C34" => approx::c34(&mut run),
            "C22" => level::c22(&mut run),
            "C26" => level::c26(&mut run),
            "C27" => level::c27(&mut run),
            "C29" => level::c29(&mut run),
            "C30" => level::c30(&mut run),
            "C32" => conc::c32(&mut run),
            "C35" => reent::c35(&mut run),
            "C36" => work::c36(&mut run),
            "C37" => dev::c37(&mut run),
            "C38" => osc::c38(&mut run),
            "C39" => work::c39(&mut run),
            "C40" => bounds::c40(&mut run),
            p => {
                eprintln!("no driver for {}", p);
                std::process::exit(2)
            }
        },
        "replay" => {
            // one history per line, operations separated by ';'
            let f = std::fs::File::open(get("--in").expect("--in")).unwrap();
            for line in std::io::BufReader::new(f).lines() {
                let line = line.unwrap();
                let mut h = run.begin(dom(&a[2]));
                for op in line.split(';').filter(|s| !s.trim().is_empty()) {
                    h.op(op.trim());
                }
                h.end(true);
            }
        }
        _ => panic!("usage"),
    }
    run.finish();
}
