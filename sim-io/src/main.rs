//! Simulation of readers, token streams and diagnostics.

#[path = "../../shared/diag.rs"]
mod diag;
#[allow(dead_code)]
mod api;
mod readers;
mod report;
mod spans;

fn main() {
  let mut props = Vec::new();
  props.extend(readers::props());
  props.extend(report::props());
  props.extend(spans::props());
  simcore::main_with(props)
}
