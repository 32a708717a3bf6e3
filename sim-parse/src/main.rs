//! Simulation of token streams and parsers.

#[path = "../../shared/diag.rs"]
mod diag;
mod queue;

mod grammar;
mod parsers;
mod tokens;
mod types;
mod values;
mod visible;

fn main() {
  let mut props = Vec::new();
  props.extend(tokens::props());
  props.extend(parsers::props());
  props.extend(values::props());
  simcore::main_with(props)
}
