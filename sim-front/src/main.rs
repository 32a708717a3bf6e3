//! Simulation of a whole front end of a compiler.

#[path = "../../shared/diag.rs"]
mod diag;
mod driver;
mod lang;
mod reference;
mod text;

fn main() {
  simcore::main_with(driver::props())
}
