// Compiles shim.c against the C header of the code under test.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/shim.o", out);
    let a = format!("{}/libshim.a", out);
    let run = |c: &mut Command| assert!(c.status().expect("cannot run").success());
    run(Command::new("gcc").args(&["-c", "-O1", "-Wall", "-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration", "-I../../repo/ffi/src/include", "src/shim.c", "-o", &o]));
    let _ = std::fs::remove_file(&a);
    run(Command::new("ar").args(&["rcs", &a, &o]));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=shim");
    println!("cargo:rerun-if-changed=src/shim.c");
    println!("cargo:rerun-if-changed=../../repo/ffi/src/include/credential.h");
}
