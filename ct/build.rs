use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("compiler").success());
    println!("cargo:rustc-link-search=native={out}");
    for (f, bin) in [("trace", "c32"), ("entropy", "c33")] {
        println!("cargo:rerun-if-changed={f}.c");
        run(Command::new("gcc").args(["-O2", "-c", "-fPIC"]).arg(format!("{f}.c")).arg("-o").arg(format!("{out}/{f}.o")));
        println!("cargo:rustc-link-arg-bin={bin}={out}/{f}.o");
    }
    // both are compiled with the coverage callbacks
    println!("cargo:rustc-link-arg-bin=c33={out}/trace.o");
}
