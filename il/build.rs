use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=sched.c");
    assert!(Command::new("gcc").args(["-O2", "-Wall", "-c", "-fPIC", "sched.c", "-o"]).arg(format!("{out}/sched.o")).status().expect("compiler").success());
    println!("cargo:rustc-link-arg={out}/sched.o");
}
