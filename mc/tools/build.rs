use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=fault.c");
    let out = std::env::var("OUT_DIR").unwrap() + "/libfault.so";
    let ok = Command::new("cc")
        .args(["-O1", "-g", "-shared", "-fPIC", "-Wall", "-o", &out, "fault.c", "-ldl", "-lpthread"])
        .status()
        .expect("cc")
        .success();
    assert!(ok, "fault.c");
    println!("cargo:rustc-env=FAULT_SO={out}");
}
