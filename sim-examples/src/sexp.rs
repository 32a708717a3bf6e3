//! Reference of the S-expressions.

use crate::lexer::{Lang, Res, Tokens, K, P};

pub static LANG: Lang = Lang::new(&[r"\s+", r"[()]", r"[^\s()]+"], "", |t, s, _| {
  Ok(K::Text(if t == 1 { PAREN } else { "atom" }, s.into()))
});

const PAREN: &str = "parentheses";
const ATOM: P = P::Kind("atom", "atom");
const L: P = P::Is(PAREN, "(");
const R: P = P::Is(PAREN, ")");

fn elem(ts: &mut Tokens, out: &mut Vec<String>) -> Res<()> {
  if ts.at(ATOM)? {
    out.push(format!("{:?}", ts.text(ATOM)?.0));
    return Ok(());
  }
  ts.take(L)?;
  out.push("'('".into());
  while ts.at(ATOM)? || ts.at(L)? {
    elem(ts, out)?;
  }
  ts.take(R)?;
  out.push("')'".into());
  Ok(())
}

pub fn run(ts: &mut Tokens, out: &mut String) -> Res<()> {
  loop {
    if !ts.at(ATOM)? && !ts.at(L)? {
      ts.take(P::Eof)?;
      return Ok(());
    }
    let mut v = Vec::new();
    elem(ts, &mut v)?;
    v.iter().for_each(|s| {
      out.push_str(s);
      out.push('\n');
    });
  }
}

/// The tokens in the printed trees, one per line.
pub fn flat(out: &str) -> String {
  let lines: Vec<&str> = out.lines().map(|l| l.trim()).collect();
  let mut s = String::new();
  for w in lines.windows(2) {
    let value = w[1].strip_suffix(',').unwrap_or(w[1]);
    if (w[0].ends_with("Atom(") && value.starts_with('"')) || (w[0].ends_with("Paren(") && value.starts_with('\'')) {
      s.push_str(value);
      s.push('\n');
    }
  }
  s
}
