//! Deterministic simulation of bromine. See /verif/DESIGN.md.
#![allow(dead_code)]

mod ctl;
mod plan;
mod rt;
mod sys;
mod bulk;
mod codec;
mod net;
mod own;
mod wire;
mod world;
mod mesh;
mod raw;
#[cfg(feature = "mt")]
mod mt;
#[cfg(feature = "mt")]
mod threads;
mod frames;
mod leak;
mod pool;
mod ids;
mod life;
#[cfg(feature = "full")]
mod enc;

/// Bytes that look random.
pub fn enc_bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed ^ 0x5eed_0f_da7a;
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        out.extend_from_slice(&sys::splitmix(&mut s).to_le_bytes());
    }
    out.truncate(n);
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => ctl::check(&a[2], &a[3], num(4, 1)),
        Some("bare") => match plan::PLANS.iter().find(|p| p.property == a[2]) {
            Some(p) if p.bare == 2 || (p.bare == 1 && a[3] == "thorough") => 0,
            _ => 1,
        },
        Some("threaded") => match plan::THREADED.iter().find(|p| p.0 == a[2]) {
            Some(p) if p.1 == 2 || a[3] == "thorough" => 0,
            _ => 1,
        },
        Some("replay") => ctl::replay(std::path::Path::new(&a[2])),
        Some("run") => ctl::run_one(&a[2], num(3, 1), true),
        Some("quiet") => ctl::run_one(&a[2], num(3, 1), false),
        Some("hunt") => ctl::hunt(&a[2], num(3, 1), num(4, 1000)),
        Some("digests") => ctl::digests(num(2, 1), num(3, 50)),
        _ => {
            eprintln!("usage: brosim check PROPERTY TIER SEED | replay FILE | run SCENARIO SEED | hunt SCENARIO SEED COUNT");
            2
        }
    };
    std::process::exit(rc);
}
