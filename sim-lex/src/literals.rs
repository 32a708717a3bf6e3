//! L03: values of literal tokens.

use crate::lexers::{char_lexer, CharInput, Desc, Lx};
use crate::diag;
use laps::lexer::{char_literal, int_literal, signed_int_literal, str_literal};
use laps::prelude::*;
use laps::reader::Reader;
use laps::span::FileType;
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::{ensure, Ctx, Feed, Prop, Rng, SimRead, Step, Viol};
use std::cell::RefCell;
use std::rc::Rc;

/// Separates literals, may not occur in them.
const SEP: char = '\u{1}';

/// What the texts of a lexer spell.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Spell {
  /// Width of the type, whether it has negative values, whether the text may have a sign.
  Int(u32, bool, bool),
  Str,
  Char,
}

macro_rules! lexers {
  ($($m:ident, $t:ty, $f:ident, $s:expr;)*) => {
    $(mod $m {
      use super::*;
      #[derive(Debug, Tokenize)]
      pub enum L {
        #[skip("\u{1}+")]
        Sep,
        /// Literal.
        #[regex("[^\u{1}]+", $f)]
        Lit($t),
        #[eof]
        End,
      }
      impl Desc for L {
        fn desc(&self) -> (usize, String) {
          match self {
            L::Sep => (0, String::new()),
            L::Lit(v) => (1, v.to_string()),
            L::End => (2, String::new()),
          }
        }
      }
    })*
    static KINDS: &[(&str, Spell, fn(CharInput) -> Box<dyn Lx>)] = &[
      $((stringify!($m), $s, char_lexer::<$m::L>),)*
    ];
  };
}

lexers! {
  i8_u, i8, int_literal, Spell::Int(8, true, false);
  i16_u, i16, int_literal, Spell::Int(16, true, false);
  i32_u, i32, int_literal, Spell::Int(32, true, false);
  i64_u, i64, int_literal, Spell::Int(64, true, false);
  i128_u, i128, int_literal, Spell::Int(128, true, false);
  isize_u, isize, int_literal, Spell::Int(usize::BITS, true, false);
  u8_u, u8, int_literal, Spell::Int(8, false, false);
  u16_u, u16, int_literal, Spell::Int(16, false, false);
  u32_u, u32, int_literal, Spell::Int(32, false, false);
  u64_u, u64, int_literal, Spell::Int(64, false, false);
  u128_u, u128, int_literal, Spell::Int(128, false, false);
  usize_u, usize, int_literal, Spell::Int(usize::BITS, false, false);
  i8_s, i8, signed_int_literal, Spell::Int(8, true, true);
  i16_s, i16, signed_int_literal, Spell::Int(16, true, true);
  i32_s, i32, signed_int_literal, Spell::Int(32, true, true);
  i64_s, i64, signed_int_literal, Spell::Int(64, true, true);
  i128_s, i128, signed_int_literal, Spell::Int(128, true, true);
  isize_s, isize, signed_int_literal, Spell::Int(usize::BITS, true, true);
  u8_s, u8, signed_int_literal, Spell::Int(8, false, true);
  u16_s, u16, signed_int_literal, Spell::Int(16, false, true);
  u32_s, u32, signed_int_literal, Spell::Int(32, false, true);
  u64_s, u64, signed_int_literal, Spell::Int(64, false, true);
  u128_s, u128, signed_int_literal, Spell::Int(128, false, true);
  usize_s, usize, signed_int_literal, Spell::Int(usize::BITS, false, true);
  string, String, str_literal, Spell::Str;
  character, char, char_literal, Spell::Char;
}

/// The number that the text spells, as text.
fn number(text: &str, width: u32, negative: bool, signed: bool) -> Option<String> {
  let b = text.as_bytes();
  let (minus, b) = match b.first() {
    Some(b'-') if signed => (true, &b[1..]),
    Some(b'+') if signed => (false, &b[1..]),
    _ => (false, b),
  };
  let (radix, digits) = match b {
    [b'0', b'b', d @ ..] => (2u8, d),
    [b'0', b'o', d @ ..] => (8, d),
    [b'0', b'x', d @ ..] => (16, d),
    d => (10, d),
  };
  // little-endian decimal digits of the magnitude
  let mut mag: Vec<u8> = vec![0];
  if digits.is_empty() {
    return None;
  }
  for d in digits {
    let v = match d {
      b'0'..=b'9' => d - b'0',
      b'a'..=b'f' => d - b'a' + 10,
      b'A'..=b'F' => d - b'A' + 10,
      _ => return None,
    };
    if v >= radix {
      return None;
    }
    let mut carry = v as u32;
    for x in mag.iter_mut() {
      let n = *x as u32 * radix as u32 + carry;
      *x = (n % 10) as u8;
      carry = n / 10;
    }
    while carry > 0 {
      mag.push((carry % 10) as u8);
      carry /= 10;
    }
    if mag.len() > 60 {
      return None;
    }
  }
  while mag.len() > 1 && mag.last() == Some(&0) {
    mag.pop();
  }
  // decimal digits of 2^n
  let power = |n: u32| {
    let mut p: Vec<u8> = vec![1];
    for _ in 0..n {
      let mut carry = 0;
      for x in p.iter_mut() {
        let n = *x * 2 + carry;
        *x = n % 10;
        carry = n / 10;
      }
      if carry > 0 {
        p.push(carry);
      }
    }
    p
  };
  let less = |a: &[u8], b: &[u8]| (a.len(), a.iter().rev().collect::<Vec<_>>()) < (b.len(), b.iter().rev().collect::<Vec<_>>());
  let spell = |d: &[u8]| d.iter().rev().map(|d| (b'0' + d) as char).collect::<String>();
  let zero = mag == [0];
  let limit = power(if negative { width - 1 } else { width });
  if !minus || zero {
    return less(&mag, &limit).then(|| spell(&mag));
  }
  if negative {
    return (less(&mag, &limit) || mag == limit).then(|| format!("-{}", spell(&mag)));
  }
  // documented: unsigned numbers wrap around
  if !less(&mag, &limit) {
    return None;
  }
  let mut borrow = 0;
  let mut out = Vec::new();
  for (i, l) in limit.iter().enumerate() {
    let m = mag.get(i).copied().unwrap_or(0) + borrow;
    let l = if *l < m { l + 10 } else { *l };
    borrow = (l >= 10) as u8;
    out.push(l - m);
  }
  while out.len() > 1 && out.last() == Some(&0) {
    out.pop();
  }
  Some(spell(&out))
}

/// The text that the literal spells.
fn text_of(text: &str, quote: char) -> Option<String> {
  let c: Vec<char> = text.chars().collect();
  if c.len() < 2 || c[0] != quote || c[c.len() - 1] != quote {
    return None;
  }
  let body = &c[1..c.len() - 1];
  let mut out = String::new();
  let mut i = 0;
  while i < body.len() {
    let c = body[i];
    i += 1;
    if c == quote || "\n\r\t".contains(c) {
      return None;
    }
    if c != '\\' {
      out.push(c);
      continue;
    }
    // an escape may not reach over the last quote
    let e = *body.get(i)?;
    i += 1;
    out.push(match e {
      'r' => '\r',
      'n' => '\n',
      't' => '\t',
      '0' => '\0',
      '\\' | '\'' | '"' => e,
      'x' => {
        let h: String = body.get(i..i + 2)?.iter().collect();
        i += 2;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
          return None;
        }
        char::from(u8::from_str_radix(&h, 16).ok()?)
      }
      'u' => {
        if *body.get(i)? != '{' {
          return None;
        }
        let len = body[i..].iter().position(|c| *c == '}')?;
        let h: String = body[i + 1..i + len].iter().collect();
        i += len + 1;
        if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
          return None;
        }
        let h = h.trim_start_matches('0');
        if h.len() > 6 {
          return None;
        }
        char::from_u32(if h.is_empty() { 0 } else { u32::from_str_radix(h, 16).ok()? })?
      }
      _ => return None,
    });
  }
  Some(out)
}

fn spelled(s: Spell, text: &str) -> Option<String> {
  match s {
    Spell::Int(w, n, signed) => number(text, w, n, signed),
    Spell::Str => text_of(text, '"'),
    Spell::Char => text_of(text, '\'').filter(|s| s.chars().count() == 1),
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  kind: usize,
  texts: Vec<String>,
  steps: Vec<Step>,
  tail: usize,
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let (name, spell, make) = KINDS[plan.kind % KINDS.len()];
  let mut doc = String::new();
  let mut texts = Vec::new();
  for t in &plan.texts {
    let t: String = t.chars().filter(|c| *c != SEP).collect();
    if !t.is_empty() {
      texts.push((doc.chars().count(), t.clone()));
      doc.push_str(&t);
    }
    doc.push(SEP);
  }
  let feed = Rc::new(RefCell::new(Feed::new(doc.clone().into_bytes(), plan.steps.clone(), plan.tail)));
  let mut lexer = make(CharInput::Sim(Reader::new(SimRead(feed.clone()), FileType::Buffer)));
  let root = lexer.span();
  let mut errors = 0;
  let mut locs = vec![(1, 0)];
  for c in doc.chars() {
    locs.push(advance(*locs.last().unwrap(), c as u32));
  }
  for (at, t) in &texts {
    let got = lexer.next();
    let _ = got.as_ref().is_err_and(|e| diag::is_fatal(e));
    let printed = diag::take();
    let want = spelled(spell, t);
    let show = match &got {
      Ok((i, v, s)) => format!("{}{v:?} at {s}", ["", "", "the end "][*i]),
      Err(_) => format!("an error, {printed:?}"),
    };
    ctx.log(|| format!("{name} {t:?}: {show}"));
    match (&want, &got) {
      (Some(w), Ok((1, v, s))) => {
        ensure!(v == w, "value", "{name}: {t:?} has the value {v:?}, expected {w:?}");
        let span = ((s.start().line, s.start().col), (s.end().line, s.end().col));
        let n = t.chars().count();
        ensure!(span == (locs[at + 1], locs[at + n]), "span", "{name}: {t:?} is at {s}");
        ctx.count("probe.valid", 1);
      }
      (None, Err(e)) => {
        errors += 1;
        ensure!(
          !diag::is_fatal(&e) && printed.starts_with("error: invalid literal\n"),
          "report",
          "{name}: {t:?} reported as {printed:?}"
        );
        ctx.count("probe.invalid", 1);
      }
      _ => {
        return Viol::new("value", format!("{name}: {t:?}: expected {want:?}, got {show}"));
      }
    }
    ctx.nontrivial = true;
    ensure!(root.error_num() == errors, "count", "{name}: {} errors counted, expected {errors}", root.error_num());
  }
  ensure!(matches!(lexer.next(), Ok((2, _, _))), "value", "{name}: no end behind the last literal");
  // the functions themselves, for texts that no token consists of
  if plan.texts.iter().any(|t| t.is_empty()) {
    ensure!(
      int_literal::<u8>("").is_none() && signed_int_literal::<u8>("").is_none(),
      "value",
      "the empty text is a number"
    );
    ensure!(str_literal("").is_none() && char_literal("").is_none(), "value", "the empty text is a literal");
  }
  ctx.count(
    match spell {
      Spell::Int(..) => "probe.integers",
      Spell::Str => "probe.strings",
      Spell::Char => "probe.characters",
    },
    1,
  );
  ctx.count_feed(&feed.borrow());
  Ok(())
}

fn gen_number(r: &mut Rng, width: u32, negative: bool, signed: bool) -> String {
  let sign = match r.below(8) {
    0..=1 if signed => "-",
    2 if signed => "+",
    3 => ["-", "+", "--", "+-"][r.below(4)],
    _ => "",
  };
  let radix = [10, 10, 2, 8, 16][r.below(5)];
  // often close to the limits of some type
  let w = if r.chance(2, 3) { width } else { [8, 16, 32, 64, 128][r.below(5)] };
  let w = if negative == r.chance(1, 8) { w } else { w - 1 };
  let top = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
  let n: u128 = match r.below(5) {
    0 => r.below(300) as u128,
    1 => top.saturating_add(1).saturating_sub(r.below(3) as u128),
    2 => top.saturating_add(r.below(3) as u128).saturating_add(1),
    3 => top.saturating_mul(10) / 10 + r.below(12) as u128,
    _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128),
  };
  let mut digits = match radix {
    2 => format!("{n:b}"),
    8 => format!("{n:o}"),
    16 if r.chance(1, 2) => format!("{n:X}"),
    16 => format!("{n:x}"),
    _ => n.to_string(),
  };
  if r.chance(1, 12) {
    // 2^128 and above
    digits.push(['0', '1', '5'][r.below(3)]);
  }
  if r.chance(1, 6) {
    digits = "0".repeat(if r.chance(1, 50) { r.range(100, 2500) } else { r.range(1, 40) }) + &digits;
  }
  if r.chance(1, 6) {
    let at = r.below(digits.len() + 1);
    digits.insert(at, *r.pick(&['_', 'f', 'g', '9', '8', '2', '+', '-', ' ', 'x', 'b', 'o', '\u{ff11}', '\u{661}', 'é', '\n', '.']));
  }
  if r.chance(1, 16) {
    digits.clear();
  }
  let prefix = match radix {
    2 => "0b",
    8 => "0o",
    16 => "0x",
    _ => "",
  };
  let prefix = match r.below(20) {
    0 => *r.pick(&["0X", "0B", "0O", "00x", "x", "0d", "0"]),
    _ => prefix,
  };
  format!("{sign}{prefix}{digits}")
}

fn gen_char(r: &mut Rng, out: &mut String) {
  match r.below(9) {
    0..=2 => out.push(*r.pick(&['a', 'z', ' ', '0', '{', '}', 'é', '你', '\u{1f602}', '\u{301}', '\u{10ffff}', '\0'])),
    3 => out.push(*r.pick(&['\n', '\r', '\t', '\'', '"', '\\', '\u{b}', '\u{2028}', '\u{85}'])),
    4 => {
      out.push('\\');
      out.push(*r.pick(&['r', 'n', 't', '0', '\\', '\'', '"']));
    }
    5 => {
      out.push('\\');
      out.push(*r.pick(&['a', 'b', 'v', 'f', 'e', '1', '7', 'X', 'U', 'N', '\n', ' ', 'é', 'x', 'u']));
    }
    6 => {
      let b = r.below(256);
      let s = match r.below(6) {
        0 => format!("\\x{b:X}"),
        1 => format!("\\x{:x}g", b & 15),
        2 => format!("\\x+{:x}", b & 15),
        3 => format!("\\x{b:02X}"),
        _ => format!("\\x{b:02x}"),
      };
      out.push_str(&s);
    }
    7 => {
      let c = match r.below(6) {
        0 => *r.pick(&[0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0xffff_ffff, 0, 0xfffe]),
        1 => r.range(0xd800, 0xdfff),
        2 => r.range(0x10fff0, 0x110010),
        3 => r.below(0x100),
        4 => r.next() as usize & 0xffff_ffff_ffff >> r.below(40),
        _ => r.below(0x110000),
      };
      let s = match r.below(12) {
        0 => format!("\\u{c:x}"),
        1 => format!("\\u{{{c:x}"),
        2 => format!("\\u{{{c:08x}}}"),
        3 => "\\u{}".to_string(),
        4 => format!("\\u{{{c:x}g}}"),
        5 => format!("\\u({c:x})"),
        6 => format!("\\u{{1{c:08x}}}"),
        7 => format!("\\u{{{c:X}}}"),
        _ => format!("\\u{{{c:x}}}"),
      };
      out.push_str(&s);
    }
    _ => (0..r.range(1, 3)).for_each(|_| out.push((b'a' + r.below(26) as u8) as char)),
  }
}

fn gen_quoted(r: &mut Rng, quote: char) -> String {
  let mut s = String::new();
  if !r.chance(1, 24) {
    s.push(if r.chance(1, 24) { '\'' } else { quote });
  }
  let n = if quote == '\'' { [1, 1, 1, 1, 1, 0, 2][r.below(7)] } else if r.chance(1, 300) { r.range(100, 3000) } else { r.below(8) };
  for _ in 0..n {
    gen_char(r, &mut s);
  }
  if !r.chance(1, 24) {
    s.push(if r.chance(1, 24) { '"' } else { quote });
  }
  if r.chance(1, 24) {
    s.push(*r.pick(&['a', ' ', '"', '\'', '\n']));
  }
  s
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  // strings and characters in half of the runs
  let kind = if r.chance(1, 2) { r.below(24) } else { r.range(24, 25) };
  let spell = KINDS[kind].1;
  let n = r.range(1, if deep { 20 } else { 8 });
  let texts: Vec<String> = (0..n)
    .map(|_| match spell {
      _ if r.chance(1, 40) => String::new(),
      Spell::Int(w, n, s) => gen_number(r, w, n, s),
      Spell::Str => gen_quoted(r, '"'),
      Spell::Char => gen_quoted(r, '\''),
    })
    .collect();
  let total = texts.iter().map(|t| t.len() + 1).sum();
  let (steps, tail) = gen_steps(
    r,
    total,
    Faults {
      eintr: true,
      ..Default::default()
    },
  );
  Plan {
    kind,
    texts,
    steps,
    tail,
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("L03", 400_000, 40_000_000, gen, run)
    .rule("one run = a lexer for literals of one of 12 integer types (with or without sign), strings or characters, up to 8 (20) valid and invalid literals, and a delivery trace with short and interrupted reads; non-trivial = at least one literal")
    .real(&["laps::lexer (int_literal, signed_int_literal, str_literal, char_literal)", "derived lexers, laps::reader, laps::span"])
    .stub(&["the source behind Read, the standard error"])
    .assumptions(&["unsigned types wrap around behind a minus sign, as documented", "the number of leading zeros in \\u{...} is not limited"])]
}
