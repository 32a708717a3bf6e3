//! Reference of the calculator.

use crate::lexer::{Lang, Res, Tokens, K, P};

pub static LANG: Lang = Lang::new(
  &[r"\s+", r"[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?", r"."],
  "floating-point number",
  |t, s, _| match t {
    1 => s.parse().map(K::Float).map_err(|_| "floating-point number"),
    _ => Ok(K::Text(OTHER, s.into())),
  },
);

const OTHER: &str = "other character";

fn op(s: &'static str) -> P {
  P::Is(OTHER, s)
}

type F = fn(f64, f64) -> f64;
const SUM: &[(&str, F)] = &[("+", |a, b| a + b), ("-", |a, b| a - b)];
const PRODUCT: &[(&str, F)] = &[("*", |a, b| a * b), ("/", |a, b| a / b), ("%", |a, b| a % b)];

/// Operands and operators of one level, folded from the left, or from the
/// right, which is the known defect.
fn level(ts: &mut Tokens, right: bool, ops: &[(&'static str, F)], next: &mut dyn FnMut(&mut Tokens) -> Res<f64>) -> Res<f64> {
  let mut v = vec![next(ts)?];
  let mut fs = Vec::new();
  'more: loop {
    for (s, f) in ops {
      if ts.at(op(s))? {
        ts.take(op(s))?;
        fs.push(f);
        v.push(next(ts)?);
        continue 'more;
      }
    }
    break;
  }
  if right {
    let mut r = v.pop().unwrap();
    while let Some(f) = fs.pop() {
      r = f(v.pop().unwrap(), r);
    }
    return Ok(r);
  }
  let mut v = v.into_iter();
  let first = v.next().unwrap();
  Ok(v.zip(fs).fold(first, |l, (r, f)| f(l, r)))
}

fn sum(ts: &mut Tokens, right: bool) -> Res<f64> {
  level(ts, right, SUM, &mut |ts| level(ts, right, PRODUCT, &mut |ts| value(ts, right)))
}

fn value(ts: &mut Tokens, right: bool) -> Res<f64> {
  let num = P::Number("floating-point");
  if ts.at(num)? {
    return match ts.take(num)?.k {
      K::Float(f) => Ok(f),
      _ => unreachable!(),
    };
  }
  if ts.at(op("-"))? {
    ts.take(op("-"))?;
    return Ok(-value(ts, right)?);
  }
  ts.take(op("("))?;
  let v = sum(ts, right)?;
  ts.take(op(")"))?;
  Ok(v)
}

pub fn run(ts: &mut Tokens, right: bool, out: &mut String) -> Res<()> {
  let v = sum(ts, right)?;
  ts.take(P::Eof)?;
  out.push_str(&format!("{v}\n"));
  Ok(())
}
