//! Expands the lexer again if the entropy changes.

fn main() {
  println!("cargo:rerun-if-changed=build.rs");
  println!("cargo:rerun-if-env-changed=SIM_ENTROPY");
  println!("cargo:rustc-env=SIM_ENTROPY={}", std::env::var("SIM_ENTROPY").unwrap_or_default());
}
