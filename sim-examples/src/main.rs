//! Simulation of the example programs.

#[path = "../../shared/diag.rs"]
#[allow(dead_code)]
mod diag;
mod calc;
mod clike;
mod driver;
mod json;
mod lexer;
mod programs {
  include!(concat!(env!("OUT_DIR"), "/mods.rs"));
}
mod sexp;
mod sim;
mod text;

fn main() {
  simcore::main_with(driver::props())
}
