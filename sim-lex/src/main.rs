//! Simulation of derived lexers and of literals.

#[path = "../../shared/diag.rs"]
mod diag;
mod lexers;
mod literals;
mod switch;

fn main() {
  let mut props = Vec::new();
  props.extend(lexers::props());
  props.extend(literals::props());
  props.extend(switch::props());
  simcore::main_with(props)
}
