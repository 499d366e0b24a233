//! Builds the preemption points of simulated threads (feature `mt` only).
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=mt.c");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_MT").is_none() {
        return;
    }
    let out = format!("{}/mt.o", std::env::var("OUT_DIR").unwrap());
    let ok = Command::new("gcc").args(["-O2", "-fPIC", "-fexceptions", "-pthread", "-c", "mt.c", "-o", &out]).status().map_or(false, |s| s.success());
    assert!(ok, "cannot compile mt.c");
    println!("cargo:rustc-link-arg={}", out);
}
