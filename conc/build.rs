use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    assert!(Command::new("gcc").args(["-O2", "-g", "-fno-inline-functions-called-once", "-fno-ipa-icf", "-fPIC", "-fexceptions", "-fno-stack-protector", "-c", "rt/rt.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &format!("{out}/libmcrt.a"), &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=mcrt");
}
