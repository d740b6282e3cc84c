use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/simrt.o");
    let a = format!("{out}/libsimrt.a");
    assert!(Command::new("gcc").args(["-O2", "-g", "-fPIC", "-c", "csrc/simrt.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rustc-link-arg=-Wl,-E");
    println!("cargo:rerun-if-changed=csrc/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
