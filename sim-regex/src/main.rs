//! Simulation of matchers for regular expressions.

mod automaton;
mod dump;
mod gen;
mod matcher;
mod stages;

fn main() {
  let mut props = matcher::props();
  props.extend(stages::props());
  props.extend(automaton::props());
  simcore::main_with(props)
}
