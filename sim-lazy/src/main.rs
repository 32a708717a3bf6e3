//! E02: the simulations of readers, parsers and whole front ends, which check
//! that nothing is taken from the source before it is needed.

#[path = "../../shared/diag.rs"]
mod diag;
#[path = "../../sim-front/src/driver.rs"]
mod driver;
#[path = "../../sim-parse/src/grammar.rs"]
mod grammar;
#[path = "../../sim-front/src/lang.rs"]
mod lang;
#[path = "../../sim-parse/src/parsers.rs"]
mod parsers;
#[path = "../../sim-parse/src/queue.rs"]
mod queue;
#[path = "../../sim-io/src/readers.rs"]
mod readers;
#[path = "../../sim-front/src/reference.rs"]
mod reference;
#[path = "../../sim-front/src/text.rs"]
mod text;
#[path = "../../sim-parse/src/visible.rs"]
mod visible;
#[path = "../../sim-parse/src/types.rs"]
mod types;

use simcore::Prop;

fn main() {
  let mut parts = Vec::new();
  for p in [readers::props(), parsers::props(), driver::props()].into_iter().flatten() {
    let weight = match p.id {
      "R01" => 2,
      "E01" => 6,
      _ => 1,
    };
    parts.push((weight, p.only_lazy()));
  }
  let e02 = Prop::any("E02", 300_000, 24_000_000, parts)
    .rule("one run = one run of a simulation of R01-R03, P01, P02 or E01 (counted below), of which only the calls of the source and the tokenizer are judged: whenever an operation calls it and gets something, all that was delivered before must have been needed; non-trivial = as defined there")
    .real(&[
      "laps: reader, input, derived lexer, token buffer, parsers (derived, sequences, lists, prefixes, options, boxes, tuples, token_ast)",
      "laps_macros and laps_regex (expansion of the lexer)",
      "std::fs::File, std::io::Stdin (including its buffer)",
    ])
    .stub(&["the source behind Read, files and the standard input below the system calls", "the tokenizer (runs of P01 and P02)"])
    .assumptions(&[
      "one character behind a token may be needed to find its end",
      "constructs with #[starts_with] may look at all of the tokens, or stop at the first that does not fit",
      "calls that fail or find the end of the source are not judged",
    ]);
  simcore::main_with(vec![e02])
}
