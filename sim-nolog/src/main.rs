//! The simulations of readers, token streams, lexers and parsers, and of
//! reports, without the logger.

mod diag;
#[path = "../../sim-front/src/driver.rs"]
mod driver;
#[path = "../../sim-parse/src/grammar.rs"]
mod grammar;
#[path = "../../sim-front/src/lang.rs"]
mod lang;
#[path = "../../sim-lex/src/lexers.rs"]
mod lexers;
#[path = "../../sim-lex/src/literals.rs"]
mod literals;
#[path = "../../sim-parse/src/parsers.rs"]
mod parsers;
#[path = "../../sim-parse/src/queue.rs"]
mod queue;
#[path = "../../sim-io/src/readers.rs"]
mod readers;
#[path = "../../sim-front/src/reference.rs"]
mod reference;
mod report;
#[path = "../../sim-io/src/spans.rs"]
mod spans;
#[path = "../../sim-lex/src/switch.rs"]
mod switch;
#[path = "../../sim-front/src/text.rs"]
mod text;
#[path = "../../sim-parse/src/tokens.rs"]
mod tokens;
#[path = "../../sim-parse/src/visible.rs"]
mod visible;
#[path = "../../sim-parse/src/types.rs"]
mod types;
#[path = "../../sim-parse/src/values.rs"]
mod values;

use simcore::Prop;

fn main() {
  let mut parts = Vec::new();
  for p in [
    report::props(),
    readers::props(),
    spans::props(),
    values::props(),
    driver::props(),
    tokens::props(),
    parsers::props(),
    lexers::props(),
    literals::props(),
    switch::props(),
  ]
  .into_iter()
  .flatten()
  {
    let weight = match p.id {
      "reports" => 4,
      "L02" | "R02" => 3,
      _ => 1,
    };
    parts.push((weight, p));
  }
  let d04 = Prop::any("D04", 500_000, 40_000_000, parts)
    .rule("one run = a sequence of reports for two inputs, or one run of a simulation of R01-R03, T01, T02, P01, P02, L01-L04, D05 or E01 (counted below), in a build without the logger: the texts of returned errors are compared instead of printed ones, and nothing may be printed; non-trivial = as defined there, or at least one report")
    .real(&[
      "laps without the feature logger: laps::span, laps::reader, laps::input, laps::token, laps::parse, laps::ast, laps::lexer",
      "laps_macros and laps_regex (derived lexers and parsers)",
    ])
    .stub(&["byte sources, tokenizers (some runs)", "the kernel below std: open, read, write(2), close, getrandom"])
    .assumptions(&["as for the properties whose simulations are run"]);
  simcore::main_with(vec![d04])
}
