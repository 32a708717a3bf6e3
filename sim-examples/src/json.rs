//! Reference of the JSON parser.

use crate::lexer::{Lang, Res, Tokens, K, P};
use std::collections::BTreeMap;

pub static LANG: Lang = Lang::new(
  &[
    r"[ \r\n\t]+",
    r"true|false|null",
    r"-?([0-9]|[1-9][0-9]+)(\.[0-9]+)?([Ee][+-]?[0-9]+)?",
    r#""([^\x00-\x1f"\\]|\\(["\\/bfnrt]|u[0-9a-fA-F]{4}))*""#,
    r".",
  ],
  "number",
  |t, s, defect| match t {
    1 => Ok(K::Text(WORD, s.into())),
    2 => s.parse().map(K::Float).map_err(|_| "number"),
    3 => match defect {
      false => string(&s[1..s.len() - 1]),
      true => known_string(s),
    }
    .map(|s| K::Text(STRING, s))
    .ok_or(STRING),
    _ => Ok(K::Text(OTHER, s.into())),
  },
);

const WORD: &str = "keyword";
const STRING: &str = "string";
const OTHER: &str = "other character";
const STR: P = P::Kind(STRING, STRING);
const NUM: P = P::Number("number");

fn is(s: &'static str) -> P {
  P::Is(OTHER, s)
}

/// The text of a string. A lone surrogate is no text.
fn string(s: &str) -> Option<String> {
  let mut out = String::new();
  let mut cs = s.chars().peekable();
  let hex = |cs: &mut std::iter::Peekable<std::str::Chars>| -> Option<u32> {
    let h: String = cs.by_ref().take(4).collect();
    u32::from_str_radix(&h, 16).ok()
  };
  while let Some(c) = cs.next() {
    if c != '\\' {
      out.push(c);
      continue;
    }
    out.push(match cs.next()? {
      'b' => '\x08',
      'f' => '\x0c',
      'n' => '\n',
      'r' => '\r',
      't' => '\t',
      'u' => {
        let mut n = hex(&mut cs)?;
        if (0xd800..0xdc00).contains(&n) {
          if cs.next()? != '\\' || cs.next()? != 'u' {
            return None;
          }
          let low = hex(&mut cs)?;
          if !(0xdc00..0xe000).contains(&low) {
            return None;
          }
          n = 0x10000 + ((n - 0xd800) << 10) + (low - 0xdc00);
        }
        char::from_u32(n)?
      }
      c => c,
    });
  }
  Some(out)
}

/// The known defect: digits of an escape are decimal digits only, each other
/// one is taken for an escape of its own, and what is missing is taken from
/// the next escapes.
fn known_string(s: &str) -> Option<String> {
  let mut buf = String::new();
  let mut escape = false;
  let mut hex_num = 0;
  let mut hex = 0u32;
  for c in s[1..s.len() - 1].chars() {
    if !escape {
      match c {
        '\\' => escape = true,
        c => buf.push(c),
      }
      continue;
    }
    if hex_num > 0 && c.is_ascii_digit() {
      hex = hex * 16 + c.to_digit(16)?;
      hex_num -= 1;
      if hex_num == 0 {
        buf.push(char::from_u32(hex)?);
        hex = 0;
        escape = false;
      }
    } else if c == 'u' {
      hex_num = 4;
    } else {
      buf.push(match c {
        '"' | '\\' | '/' => c,
        'b' => '\x08',
        'f' => '\x0c',
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        _ => return None,
      });
      escape = false;
    }
  }
  Some(buf)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
  Object(BTreeMap<String, Value>),
  Array(Vec<Value>),
  String(String),
  Number(f64),
  Bool(bool),
  Null,
}

fn value(ts: &mut Tokens) -> Res<Value> {
  if ts.at(is("{"))? {
    ts.take(is("{"))?;
    let mut m = BTreeMap::new();
    if ts.at(STR)? {
      loop {
        let k = ts.text(STR)?.0;
        ts.take(is(":"))?;
        m.insert(k, value(ts)?);
        if !ts.at(is(","))? {
          break;
        }
        ts.take(is(","))?;
      }
    }
    ts.take(is("}"))?;
    return Ok(Value::Object(m));
  }
  if ts.at(is("["))? {
    ts.take(is("["))?;
    let mut v = Vec::new();
    if at_value(ts)? {
      loop {
        v.push(value(ts)?);
        if !ts.at(is(","))? {
          break;
        }
        ts.take(is(","))?;
      }
    }
    ts.take(is("]"))?;
    return Ok(Value::Array(v));
  }
  if ts.at(STR)? {
    return Ok(Value::String(ts.text(STR)?.0));
  }
  if ts.at(NUM)? {
    return match ts.take(NUM)?.k {
      K::Float(f) => Ok(Value::Number(f)),
      _ => unreachable!(),
    };
  }
  for (w, v) in [("true", Value::Bool(true)), ("false", Value::Bool(false))] {
    if ts.at(P::Is(WORD, w))? {
      ts.take(P::Is(WORD, w))?;
      return Ok(v);
    }
  }
  ts.take(P::Is(WORD, "null"))?;
  Ok(Value::Null)
}

fn at_value(ts: &mut Tokens) -> Res<bool> {
  for p in [is("{"), is("["), STR, NUM, P::Is(WORD, "true"), P::Is(WORD, "false"), P::Is(WORD, "null")] {
    if ts.at(p)? {
      return Ok(true);
    }
  }
  Ok(false)
}

pub fn run(ts: &mut Tokens, out: &mut String) -> Res<()> {
  let v = value(ts)?;
  ts.take(P::Eof)?;
  out.push_str(&format!("{v:?}"));
  Ok(())
}

/// The value that was printed in the notation of the standard library, again.
pub fn flat(out: &str) -> String {
  let cs: Vec<char> = out.chars().collect();
  let mut p = Printed { cs, at: 0 };
  let v = p.value().filter(|_| p.at == p.cs.len() && out.ends_with('\n'));
  v.map_or(out.into(), |v| format!("{v:?}"))
}

/// A parser of printed values.
struct Printed {
  cs: Vec<char>,
  at: usize,
}

impl Printed {
  fn peek(&mut self) -> char {
    while self.cs.get(self.at).is_some_and(|c| c.is_whitespace()) {
      self.at += 1;
    }
    self.cs.get(self.at).copied().unwrap_or('\0')
  }

  fn eat(&mut self, c: char) -> Option<()> {
    let ok = self.peek() == c;
    self.at += ok as usize;
    self.peek();
    ok.then_some(())
  }

  fn word(&mut self) -> String {
    self.peek();
    let from = self.at;
    while self.cs.get(self.at).is_some_and(|c| c.is_alphanumeric() || "+-.".contains(*c)) {
      self.at += 1;
    }
    let w = self.cs[from..self.at].iter().collect();
    self.peek();
    w
  }

  fn string(&mut self) -> Option<String> {
    if self.peek() != '"' {
      return None;
    }
    self.at += 1;
    let mut s = String::new();
    loop {
      let c = *self.cs.get(self.at)?;
      self.at += 1;
      s.push(match c {
        '"' => break,
        '\\' => {
          let c = *self.cs.get(self.at)?;
          self.at += 1;
          match c {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            'u' => {
              let mut n = 0;
              self.at += 1;
              loop {
                let c = *self.cs.get(self.at)?;
                self.at += 1;
                match c.to_digit(16) {
                  Some(d) => n = n * 16 + d,
                  None => break,
                }
              }
              char::from_u32(n)?
            }
            c => c,
          }
        }
        c => c,
      });
    }
    self.peek();
    Some(s)
  }

  fn value(&mut self) -> Option<Value> {
    let w = self.word();
    if w == "Null" {
      return Some(Value::Null);
    }
    self.eat('(')?;
    let v = match w.as_str() {
      "Object" => {
        self.eat('{')?;
        let mut m = BTreeMap::new();
        while self.peek() != '}' {
          let k = self.string()?;
          self.eat(':')?;
          let v = self.value()?;
          if m.insert(k, v).is_some() {
            return None;
          }
          let _ = self.eat(',');
        }
        self.eat('}')?;
        Value::Object(m)
      }
      "Array" => {
        self.eat('[')?;
        let mut v = Vec::new();
        while self.peek() != ']' {
          v.push(self.value()?);
          let _ = self.eat(',');
        }
        self.eat(']')?;
        Value::Array(v)
      }
      "String" => Value::String(self.string()?),
      "Number" => Value::Number(self.word().parse().ok()?),
      "Bool" => Value::Bool(self.word().parse().ok()?),
      _ => return None,
    };
    let _ = self.eat(',');
    self.eat(')')?;
    Some(v)
  }
}
