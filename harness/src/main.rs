mod alloc;
mod case;
mod engine;
mod exec;
mod gen;
mod junk;
mod load;

#[global_allocator]
static ALLOC: alloc::Filled = alloc::Filled;

use case::*;
use std::io::{BufRead, BufWriter, Write};

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string())
}

/// record one case; panics are written as `{"panic":..}` lines
fn emit(c: &Case, out: &mut impl Write) -> (usize, usize) {
    let r = exec::record(c);
    for k in &r.groups {
        serde_json::to_writer(&mut *out, k).unwrap();
        out.write_all(b"\n").unwrap();
    }
    for (e, p) in &r.panics {
        let mut k = c.clone();
        k.eng = e.clone();
        let v = serde_json::json!({"panic": p, "case": k});
        println!("@PANIC {}", v);
    }
    (r.groups.len(), r.panics.len())
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = format!("{}", i).replace('\n', " ");
        if std::env::var("VMH_TRACE").is_ok() || !exec::CATCHING.with(|c| c.get()) {
            eprintln!("{}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // gen --prop P --seed S --from I --n N --out F --progress F
        Some("gen") => {
            let prop = arg(&a, "--prop", "C01");
            let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
            let from: u64 = arg(&a, "--from", "0").parse().unwrap();
            let n: u64 = arg(&a, "--n", "10").parse().unwrap();
            let mut out = BufWriter::new(std::fs::File::create(arg(&a, "--out", "/dev/null")).unwrap());
            let prog = arg(&a, "--progress", "");
            let mut groups = 0;
            for i in from..from + n {
                let mut g = gen::Rng(seed.wrapping_mul(0x1000003) ^ (i << 20) ^ hash(&prop));
                g.next();
                let c = gen::generate(&prop, &mut g, format!("{}-{}-{}", prop, seed, i), i);
                if !prog.is_empty() {
                    std::fs::write(&prog, serde_json::to_string(&c).unwrap()).unwrap();
                }
                let (gs, _) = emit(&c, &mut out);
                groups += gs;
            }
            out.flush().unwrap();
            println!("@DONE cases={} groups={}", n, groups);
        }
        // exec --in F --out F --progress F : cases written by the model
        Some("exec") => {
            let f = std::io::BufReader::new(std::fs::File::open(arg(&a, "--in", "")).unwrap());
            let mut out = BufWriter::new(std::fs::File::create(arg(&a, "--out", "/dev/null")).unwrap());
            let prog = arg(&a, "--progress", "");
            let (mut n, mut groups) = (0, 0);
            for l in f.lines() {
                let mut c: Case = serde_json::from_str(&l.unwrap()).unwrap();
                for e in c.script.iter_mut() {
                    e.remove("o");
                }
                if c.engines.is_empty() {
                    c.engines = c.eng.split(',').map(|s| s.to_string()).collect();
                }
                if !prog.is_empty() {
                    std::fs::write(&prog, serde_json::to_string(&c).unwrap()).unwrap();
                }
                let (gs, _) = emit(&c, &mut out);
                n += 1;
                groups += gs;
            }
            out.flush().unwrap();
            println!("@DONE cases={} groups={}", n, groups);
        }
        // chaos --out F : what uninitialised memory holds in chaos mode
        Some("chaos") => {
            let h = exec::halfwords(engine::chaos_frame());
            std::fs::write(arg(&a, "--out", "/dev/null"), serde_json::to_string(&h).unwrap()).unwrap();
        }
        _ => {
            eprintln!("usage: vmh gen|exec ...");
            std::process::exit(2);
        }
    }
}

pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn hash(s: &str) -> u64 {
    s.bytes().fold(1469598103934665603, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
}
