//! Compiles the scheduler, which must not be instrumented.

use std::path::Path;
use std::process::Command;

fn main() {
  println!("cargo:rerun-if-changed=src/sched.c");
  println!("cargo:rerun-if-changed=build.rs");
  let out = std::env::var("OUT_DIR").unwrap();
  let obj = Path::new(&out).join("sched.o");
  let ok = Command::new("cc")
    .args(["-O2", "-g", "-fPIC", "-Wall", "-pthread", "-c", "src/sched.c", "-o"])
    .arg(&obj)
    .status()
    .unwrap()
    .success();
  assert!(ok, "cc failed");
  println!("cargo:rustc-link-arg-bins={}", obj.display());
}
