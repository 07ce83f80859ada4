use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/rt.o", out);
    assert!(Command::new("gcc").args(["-O2", "-fno-builtin-memset", "-c", "rt.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &format!("{}/librt_sched.a", out), &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=rt_sched");
    println!("cargo:rerun-if-changed=rt.c");
}
