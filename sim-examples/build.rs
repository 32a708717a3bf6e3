//! Turns the example programs into modules, with the arguments and the exit of
//! the process behind a seam.

use std::{env, fs, path::Path};

const EXAMPLES: &[&str] = &["calc", "clike", "json", "sexp"];

fn main() {
  println!("cargo:rerun-if-changed=build.rs");
  println!("cargo:rerun-if-changed=Cargo.toml");
  println!("cargo:rerun-if-env-changed=SIM_ENTROPY");
  println!("cargo:rustc-env=SIM_ENTROPY={}", env::var("SIM_ENTROPY").unwrap_or_default());
  let toml = fs::read_to_string("Cargo.toml").unwrap();
  let line = toml.lines().find(|l| l.starts_with("laps = ")).unwrap();
  let repo = line.split('"').nth(1).unwrap();
  let out = env::var("OUT_DIR").unwrap();
  let mut mods = String::new();
  for e in EXAMPLES {
    let src = Path::new(repo).join("examples").join(e).join("main.rs");
    println!("cargo:rerun-if-changed={}", src.display());
    let mut text = fs::read_to_string(&src).unwrap();
    text = text.replace("process::exit(", "crate::sim::exit(");
    text = text.replace("env::args()", "crate::sim::args()");
    text.push_str("\n\npub fn sim_main() -> std::process::ExitCode {\n  std::process::Termination::report(main())\n}\n");
    let dst = Path::new(&out).join(format!("{e}.rs"));
    fs::write(&dst, text).unwrap();
    mods.push_str(&format!("#[allow(warnings)]\n#[path = {:?}]\npub mod {e};\n", dst.display().to_string()));
  }
  fs::write(Path::new(&out).join("mods.rs"), mods).unwrap();
}
