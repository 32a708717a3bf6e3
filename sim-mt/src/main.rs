//! Simulation of threads: reports, and construction of matchers.

#[path = "../../sim-regex/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../sim-regex/src/matcher.rs"]
mod matcher;
mod matchers;
mod reports;
mod sched;

fn main() {
  let mut props = Vec::new();
  props.extend(reports::props());
  props.extend(matchers::props());
  simcore::main_with(props)
}
