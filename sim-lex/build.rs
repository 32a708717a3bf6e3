//! Generates the lexers under test from definitions.

use std::fmt::Write as _;

#[path = "../simcore/src/regex.rs"]
#[allow(dead_code, unexpected_cfgs)]
mod regex;
#[path = "../simcore/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use regex::{Matcher, DEAD, INIT};
use rng::Rng;

/// Types of fields, in the order of `lexers::Field`.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Field {
  Unit,
  Paren,
  Text,
  Char,
  U8,
  I32,
  F64,
  Bool,
  /// Custom closure that fails for texts of odd length.
  Even,
  /// Path of a function that parses integer literals.
  Int,
  /// Function that never fails.
  Len,
  /// Function that always fails.
  Never,
}

use Field::*;

#[derive(Clone)]
enum Attr {
  Regex(String, Field),
  Skip(String),
  Eof(bool),
  None,
}

#[derive(Clone)]
struct Var {
  ident: String,
  doc: Vec<String>,
  attr: Attr,
}

#[derive(Clone)]
struct Def {
  bytes: bool,
  par: Option<bool>,
  vars: Vec<Var>,
}

fn var(attr: Attr) -> Var {
  Var {
    ident: String::new(),
    doc: Vec::new(),
    attr,
  }
}

fn re(p: &str, f: Field) -> Var {
  var(Attr::Regex(p.into(), f))
}

fn skip(p: &str) -> Var {
  var(Attr::Skip(p.into()))
}

fn eof() -> Var {
  var(Attr::Eof(false))
}

fn def(bytes: bool, par: Option<bool>, vars: Vec<Var>) -> Def {
  Def { bytes, par, vars }
}

/// Hand-written definitions.
fn fixed() -> Vec<Def> {
  let ws = || skip(r"\s+");
  let bws = || skip(r"(?-u:[ \t\r\n]+)");
  let mut out = vec![
    // a small language
    def(false, None, vec![
      ws(),
      skip(r"//[^\n]*"),
      skip(r"/\*([^*]|\*+[^*/])*\*+/"),
      re("if", Unit),
      re("else", Unit),
      re("while", Paren),
      re(r"[a-zA-Z_][a-zA-Z0-9_]*", Text),
      re(r"[0-9]+|0x[0-9a-fA-F]+|0b[01]+", Int),
      re(r#""([^"\\\n]|\\.)*""#, Text),
      re(r"\+|-|\*|/|<<=?|>>=?|<=?|>=?|==|!=?|=|&&?|\|\|?", Text),
      re(r"[(){}\[\];,]", Char),
      eof(),
    ]),
    // precedence: keywords in front of and behind identifiers
    def(false, Some(false), vec![
      re("begin|end", Unit),
      re("[a-z]+", Text),
      re("then", Unit),
      re("[a-z]+[0-9]", Even),
      ws(),
      eof(),
    ]),
    // the same expression several times, out of order
    def(false, Some(true), vec![
      ws(),
      re("a+", Text),
      re("a+", Unit),
      re("(a|b)+", Text),
      re("a+", Paren),
      re("b+", Unit),
      re("(b|a)+", Unit),
      eof(),
    ]),
    // no end token
    def(false, None, vec![ws(), re("[0-9]+", U8), re(r"-?[0-9]+", I32)]),
    // unnamed unit end token, no skips
    def(false, None, vec![re("[0-9]+", U8), re("[^0-9]", Char), var(Attr::Eof(true))]),
    // floats, signs
    def(false, Some(false), vec![
      ws(),
      re(r"[-+]?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?", F64),
      re("true|false|maybe", Bool),
      re(r"\.", Unit),
      re(r"\.\.", Unit),
      re(r"\.\.\.", Paren),
      eof(),
    ]),
    // dead ends: long common prefixes, incomplete tokens
    def(false, None, vec![
      ws(),
      re("abcdefgh", Unit),
      re("abcd", Unit),
      re("abcdefxy", Even),
      re("ab", Len),
      re("z{3,5}", Len),
      re("(xy){2,4}", Text),
      re("q(w|e)?r{2}", Never),
      eof(),
    ]),
    // everything
    def(false, None, vec![re(r"(?s).", Char), re("(?s)..", Text), eof()]),
    def(false, Some(true), vec![re(r"[^\n]+", Text), re("\n", Unit), eof()]),
    // code points of all encoded lengths
    def(false, None, vec![
      ws(),
      re("[\u{80}-\u{7ff}]+", Text),
      re("[\u{800}-\u{d7ff}\u{e000}-\u{ffff}]+", Even),
      re("[\u{10000}-\u{10ffff}]+", Len),
      re("[\u{0}-\u{1f}]", Char),
      re("[a-y]+", Text),
      eof(),
    ]),
    def(false, None, vec![
      ws(),
      re("[\u{d7f0}-\u{e00f}]", Char),
      re("[\u{10fff0}-\u{10ffff}]+", Text),
      re("\u{4f60}\u{597d}|\u{4f60}", Text),
      re("(?i)stra\u{df}e", Text),
      eof(),
    ]),
    // classes with names
    def(false, None, vec![ws(), re(r"\p{Greek}+", Text), re(r"\d+", Even), re(r"[[:punct:]]", Char), eof()]),
    def(false, Some(true), vec![ws(), re(r"[_\p{Greek}\p{Cyrillic}][\p{Cyrillic}\p{Armenian}0-9]*", Text), re(r"\S", Char), eof()]),
    // nested closures
    def(false, None, vec![
      ws(),
      re("(ab*|c)*d", Text),
      re("((a|b)*c)+", Text),
      re("(a(b(c)?)?)+", Even),
      re("(d|e)*(d|f)", Len),
      eof(),
    ]),
    def(false, Some(false), vec![re("((a*b*)*c)+x", Text), re("(a|ab)(c|bcd)(d*)", Text), re(" ", Unit), re("[abcd]", Char), eof()]),
    // escapes, dots, case
    def(false, None, vec![re(r"\\[nrt0\\]", Text), re(r"\x41+", Len), re(r"(?i)hello", Text), re(r"\u{1F602}", Char), re(r"\.\*", Unit), ws(), eof()]),
    // one token, one symbol
    def(false, None, vec![re("x", Unit)]),
    def(false, Some(true), vec![re("x+", Unit), eof()]),
    def(true, None, vec![re("x", Unit), eof()]),
    def(true, Some(true), vec![re("(?-u)[\\x00-\\x7f]", Text), eof()]),
    // bytes
    def(true, None, vec![
      bws(),
      skip("#(?-u:[ -~])*"),
      re("if", Unit),
      re("(?-u)[a-zA-Z_][a-zA-Z0-9_]*", Text),
      re("(?-u)[0-9]+", Int),
      re("(?-u)[+*/<>=!-]|==|<=|>=|!=", Text),
      eof(),
    ]),
    def(true, Some(false), vec![
      re("(?-u)[\\x00-\\x1f]+", Text),
      re("(?-u)[ -~]", Text),
      re("(?-u)[ -~]{3}", Even),
      re("\u{e9}e|\u{4f60}", Text),
      re("\u{4f60}\u{597d}+", Len),
      eof(),
    ]),
    def(true, None, vec![bws(), re("(?-u)(ab|a)*c", Text), re("(?-u)a+", Unit), re("(?-u)\\x7f+", Paren), re("q{2,}", Never)]),
    def(true, Some(true), vec![bws(), re("\u{1f602}+", Text), re("\u{1f603}", Unit), re("(?-u)[0-9]{1,3}", Int), var(Attr::Eof(true))]),
    // classes of several ranges that are equivalent to adjacent ones
    def(false, None, vec![re("[a-c]1|[d-fx-z]1", Text), re("(?:[g-i]|[j-ln-p]|[q-rt-u0])2", Text), re("3[A-Cc-e]|3[D-Fa]|3[bG]", Text), eof()]),
    def(true, Some(true), vec![re("(?-u)[a-c]1", Text), re("(?-u)[d-fx-z]1|[g-hu-v]1", Even), re("(?-u)2[A-Cc-e]y+|2[D-Fa]y+|2[bG]y", Len), bws()]),
    // unused variants between tokens, skips with the highest and lowest precedence
    def(false, None, vec![
      var(Attr::None),
      re("[a-c]+", Text),
      var(Attr::None),
      skip("abc"),
      skip("[ \n]+"),
      re("ab", Unit),
      eof(),
      re("abcc", Unit),
      var(Attr::None),
      re("[c-e]+", Even),
    ]),
    def(false, None, vec![skip("[a-c]+"), re("abc", Unit), re("[a-d]+", Text), re(" ", Unit), eof()]),
  ];
  // sizes of tables around the limits of the types of their elements
  for n in [126, 127, 252, 253, 254, 255, 256, 257, 300] {
    let bytes = n % 2 == 1;
    out.push(def(bytes, [None, Some(false), Some(true)][n % 3], vec![
      skip(" +"),
      re(&format!("a{{{n}}}"), Len),
      re("b", Unit),
      eof(),
    ]));
  }
  for n in [250, 253, 254, 255, 256, 300] {
    out.push(def(false, None, vec![re(&format!("[ab]{{{n}}}c"), Len), re("d", Unit), skip("\n")]));
  }
  // long keywords with many states in several branches
  let words: Vec<String> = (0..60).map(|i| format!("k{}{}", ["al", "be", "ga", "de"][i % 4], i * 37 % 101)).collect();
  let mut vars: Vec<Var> = words.iter().map(|w| re(w, Unit)).collect();
  vars.push(re("[a-z]+[0-9]*", Text));
  vars.push(ws());
  vars.push(eof());
  out.push(def(false, None, vars));
  // names of tokens in messages
  let mut d = def(false, None, vec![
    ws(),
    re("a+", Never),
    re("b+", Never),
    re("c+", Never),
    re("d+", Never),
    re("e+", Never),
    re("f+", Never),
    re("g+", Never),
    re("h+", Never),
    eof(),
  ]);
  let names = ["_S", "LowerCamelCase", "A", "XMLName", "snake_name", "Documented", "Long", "Blank", "Dots", "E"];
  for (v, n) in d.vars.iter_mut().zip(names) {
    v.ident = n.into();
  }
  d.vars[5].doc = vec![" Integer Literal.".into()];
  d.vars[6].doc = vec![" Some `long` NAME".into(), "".into(), " over several lines..".into()];
  d.vars[7].doc = vec!["".into(), "  ".into()];
  d.vars[8].doc = vec!["  \u{c9}T\u{c9} .".into()];
  out.push(d);
  out
}

/// A random regular expression over few symbols.
fn gen_re(r: &mut Rng, syms: &[&str], classes: &[&str], depth: usize) -> String {
  match r.below(if depth == 0 { 4 } else { 10 }) {
    0 => r.pick(syms).to_string(),
    1 => {
      let n = r.range(1, 4);
      (0..n).map(|_| *r.pick(syms)).collect()
    }
    2 | 3 => r.pick(classes).to_string(),
    4 | 5 => {
      let n = r.range(2, 3);
      (0..n).map(|_| gen_re(r, syms, classes, depth - 1)).collect()
    }
    6 | 7 => {
      let n = r.range(2, 3);
      let v: Vec<_> = (0..n).map(|_| gen_re(r, syms, classes, depth - 1)).collect();
      format!("(?:{})", v.join("|"))
    }
    8 => {
      let x = gen_re(r, syms, classes, depth - 1);
      let q = ["*", "+", "?", "+", "{2}", "{1,3}", "{2,}", "{0,2}"][r.below(8)];
      format!("({x}){q}")
    }
    _ => {
      let x = gen_re(r, syms, classes, depth - 1);
      let y = gen_re(r, syms, classes, depth - 1);
      format!("(?:{x}|{y})*{}", r.pick(syms))
    }
  }
}

/// A class of several ranges over few symbols.
fn gen_class(r: &mut Rng, bytes: bool) -> String {
  let n = r.range(6, 10);
  let mut set: String = (0..n).filter(|_| r.chance(1, 2)).map(|i| (b'a' + i as u8) as char).collect();
  if set.is_empty() {
    set.push('a');
  }
  let not = if r.chance(1, 8) && !bytes { "^" } else { "" };
  if bytes {
    format!("(?-u:[{set}])")
  } else {
    format!("[{not}{set}]")
  }
}

fn random(seed: u64) -> Def {
  let mut r = Rng::new(rng::derive(seed, 0x1e8, 0));
  loop {
    let bytes = r.chance(1, 3);
    let (syms, classes): (&[&str], &[&str]) = if bytes {
      match r.below(3) {
        0 => (&["a", "b", "c"], &["(?-u:[ab])", "(?-u:[a-c])", "(?-u:[b-d])"]),
        1 => (
          &["a", "0", "_", "\u{e9}", "\u{4f60}"],
          &["(?-u:[a-z])", "(?-u:[0-9])", "(?-u:[a-z0-9_])", "(?-u:[\\x00-\\x60])"],
        ),
        _ => (
          &["x", "y", "\\x7f", "\\x00", "-"],
          &["(?-u:[x-z])", "(?-u:[\\x00-\\x1f])", "(?-u:[!-~])", "(?-u:[\\x7e\\x7f])"],
        ),
      }
    } else {
      match r.below(4) {
        0 => (&["a", "b", "c"], &["[ab]", "[a-c]", "[^a]", "[b-d]"]),
        1 => (&["a", "b", "0", "_", "-"], &["[a-z]", "[0-9]", "[a-z0-9_]", r"\d", "."]),
        2 => (
          &["\u{e9}", "\u{4f60}", "\u{1f602}", "z", "\u{10ffff}"],
          &["[\u{80}-\u{fff}]", "[^z]", "[\u{4f60}-\u{597d}]", "[\u{1f600}-\u{10ffff}]", "[y-\u{e9}]"],
        ),
        _ => (&["x", "\u{0}", "\u{d7ff}", "\u{e000}"], &["[\u{d7f0}-\u{e00f}]", "[\u{0}-x]", "[^x]", "(?s:.)"]),
      }
    };
    let ranges: Vec<String> = (0..r.range(3, 6)).map(|_| gen_class(&mut r, bytes)).collect();
    let ranges: Vec<&str> = ranges.iter().map(|s| s.as_str()).collect();
    let (syms, classes): (&[&str], &[&str]) = if r.chance(1, 3) { (&["a", "b", "f", "0"], &ranges) } else { (syms, classes) };
    let n = r.range(1, 7);
    let mut vars = Vec::new();
    for _ in 0..n {
      let depth = r.range(1, 3);
      let mut p = gen_re(&mut r, syms, classes, depth);
      if r.chance(1, 8) {
        p = format!("(?i){p}");
      }
      if r.chance(1, 8) {
        vars.push(skip(&p));
      } else {
        let fields: &[Field] = if bytes {
          &[Unit, Unit, Paren, Text, Text, Text, Even, Int, Len, Never]
        } else {
          &[Unit, Unit, Paren, Text, Text, Text, Char, U8, I32, F64, Bool, Even, Int, Len, Never]
        };
        let f = *r.pick(fields);
        vars.push(re(&p, f));
      }
    }
    if r.chance(1, 4) && !vars.is_empty() {
      // the same expression again
      let i = r.below(vars.len());
      let mut v = vars[i].clone();
      if let (Attr::Regex(_, f), true) = (&mut v.attr, r.chance(1, 2)) {
        *f = Text;
      }
      let at = r.below(vars.len() + 1);
      vars.insert(at, v);
    }
    if r.chance(3, 4) {
      let at = r.below(vars.len() + 1);
      vars.insert(at, skip(if bytes { "(?-u)[ \\t\\n]+" } else if r.chance(1, 2) { "[ \\t\\n]+" } else { r"\s+" }));
    }
    if r.chance(1, 4) {
      let at = r.below(vars.len() + 1);
      vars.insert(at, var(Attr::None));
    }
    if r.chance(4, 5) {
      let at = r.below(vars.len() + 1);
      vars.insert(at, var(Attr::Eof(r.chance(1, 3))));
    }
    for (i, v) in vars.iter_mut().enumerate() {
      v.ident = match r.below(4) {
        0 => format!("Var{i}"),
        1 => format!("SomeName{i}"),
        2 => format!("X{i}Y"),
        _ => String::new(),
      };
      if r.chance(1, 5) {
        v.doc = vec![format!(" The {i}. Token{}", ["", ".", " of Kind"][r.below(3)])];
      }
    }
    let par = [None, Some(false), Some(true)][r.below(3)];
    let d = def(bytes, par, vars);
    if ok(&d, 160) {
      return d;
    }
  }
}

/// Checks that the definition is supported and not too large.
fn ok(d: &Def, max: usize) -> bool {
  let mut exprs = Vec::new();
  for (i, v) in d.vars.iter().enumerate() {
    let p = match &v.attr {
      Attr::Regex(p, _) | Attr::Skip(p) => p,
      _ => continue,
    };
    let Ok(hir) = regex_syntax::parse(p) else {
      return false;
    };
    if hir.properties().minimum_len() == Some(0) {
      return false;
    }
    exprs.push((hir, i));
  }
  if exprs.is_empty() {
    return false;
  }
  let Ok(mut m) = Matcher::new(d.bytes, &exprs) else {
    return false;
  };
  // explore all states
  let mut todo = vec![INIT];
  let mut seen = std::collections::BTreeSet::from([DEAD, INIT]);
  while let Some(s) = todo.pop() {
    for a in m.alphabet() {
      let n = m.step(s, a);
      if seen.insert(n) {
        todo.push(n);
      }
    }
    if seen.len() > max {
      return false;
    }
  }
  true
}

/// The type of a field that is parsed by its own `FromStr`.
fn implicit(f: Field) -> Option<&'static str> {
  match f {
    Char => Some("char"),
    U8 => Some("u8"),
    I32 => Some("i32"),
    F64 => Some("f64"),
    Bool => Some("bool"),
    _ => None,
  }
}

fn main() {
  println!("cargo:rerun-if-changed=../sim-lex/build.rs");
  println!("cargo:rerun-if-changed=../simcore/src/regex.rs");
  println!("cargo:rerun-if-changed=../simcore/src/rng.rs");
  println!("cargo:rerun-if-env-changed=SIM_LEX_ONLY");
  println!("cargo:rerun-if-env-changed=SIM_LEX_SEED");
  let seed: u64 = std::env::var("SIM_LEX_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let many = std::env::var("CARGO_FEATURE_MANY").is_ok();
  let mut defs = fixed();
  for d in &defs {
    assert!(ok(d, 100_000), "unsupported definition {:?}", d.vars.iter().map(|v| match &v.attr {
      Attr::Regex(p, _) | Attr::Skip(p) => p.as_str(),
      _ => "",
    }).collect::<Vec<_>>());
  }
  let few = std::env::var("CARGO_PKG_NAME").is_ok_and(|n| n == "sim-nolog");
  let n = if many { 400 } else if few { 12 } else { 90 };
  defs.extend((0..n).map(|i| random(rng::derive(seed, 0xdef, i))));
  if let Ok(only) = std::env::var("SIM_LEX_ONLY") {
    let v: Vec<usize> = only.split(',').map(|x| x.parse().unwrap()).collect();
    defs = v.iter().map(|i| defs[*i].clone()).collect();
  }
  let mut out = String::new();
  for (di, d) in defs.iter().enumerate() {
    for copy in ["a", "b"] {
      writeln!(out, "#[allow(dead_code, non_camel_case_types, clippy::all)]\nmod d{di}{copy} {{\n  use super::*;").unwrap();
      writeln!(out, "  #[derive(Debug, Tokenize)]").unwrap();
      if d.bytes {
        writeln!(out, "  #[char_type(u8)]").unwrap();
      }
      // the second copy is constructed the other way
      let par = match (copy, d.par) {
        ("a", p) => p,
        (_, Some(p)) => Some(!p),
        (_, None) => Some(di % 2 == 0),
      };
      if let Some(p) = par {
        writeln!(out, "  #[enable_par({p})]").unwrap();
      }
      // and is generic, if it has a field that is parsed implicitly
      let generic = d.vars.iter().find_map(|v| match &v.attr {
        Attr::Regex(_, f) if copy == "b" => implicit(*f),
        _ => None,
      });
      let (params, args) = match generic {
        Some(_) => ("<N: std::str::FromStr + std::fmt::Debug>", "<N>"),
        None => ("", ""),
      };
      writeln!(out, "  pub enum L{params} {{").unwrap();
      let mut arms = String::new();
      for (i, v) in d.vars.iter().enumerate() {
        let ident = if v.ident.is_empty() { format!("V{i}") } else { v.ident.clone() };
        for line in &v.doc {
          writeln!(out, "    #[doc = {line:?}]").unwrap();
        }
        let mut field = Unit;
        match &v.attr {
          Attr::Regex(p, f) => {
            field = *f;
            let parser = match (f, d.bytes) {
              (Text, true) => ", |b: &[u8]| Some(b.to_vec())",
              (Even, true) => ", |b: &[u8]| (b.len() % 2 == 0).then(|| b.to_vec())",
              (Int, true) => ", int_bytes",
              (Len, true) => ", |b: &[u8]| Some(b.len())",
              (Never, true) => ", |_: &[u8]| None",
              (Even, false) => ", |s: &str| (s.chars().count() % 2 == 0).then(|| s.to_string())",
              (Int, false) => ", laps::lexer::int_literal",
              (Len, false) => ", len_chars",
              (Never, false) => ", |_: &str| None",
              _ => "",
            };
            writeln!(out, "    #[regex({p:?}{parser})]").unwrap();
          }
          Attr::Skip(p) => writeln!(out, "    #[skip({p:?})]").unwrap(),
          Attr::Eof(paren) => {
            writeln!(out, "    #[eof]").unwrap();
            field = if *paren { Paren } else { Unit };
          }
          Attr::None => {}
        }
        let ty = match field {
          Unit => "",
          Paren => "()",
          Text | Even if d.bytes => "(Vec<u8>)",
          Text | Even => "(String)",
          Char => "(char)",
          U8 => "(u8)",
          I32 => "(i32)",
          F64 => "(f64)",
          Bool => "(bool)",
          Int => "(i64)",
          Len => "(usize)",
          Never => "(u16)",
        };
        if field != Unit && generic.is_some_and(|g| Some(g) == implicit(field)) {
          writeln!(out, "    {ident}(N),").unwrap();
        } else {
          writeln!(out, "    {ident}{ty},").unwrap();
        }
        match field {
          Unit => writeln!(arms, "      L::{ident} => ({i}, String::new()),").unwrap(),
          Paren => writeln!(arms, "      L::{ident}() => ({i}, String::new()),").unwrap(),
          _ => writeln!(arms, "      L::{ident}(v) => ({i}, format!(\"{{v:?}}\")),").unwrap(),
        }
      }
      writeln!(out, "  }}\n  impl{params} Desc for L{args} {{\n    fn desc(&self) -> (usize, String) {{\n      match self {{\n{arms}      }}\n    }}\n  }}\n}}").unwrap();
    }
  }
  writeln!(out, "pub static DEFS: &[Def] = &[").unwrap();
  for (di, d) in defs.iter().enumerate() {
    let mk = if d.bytes { "Make::Bytes" } else { "Make::Chars" };
    let f = if d.bytes { "byte_lexer" } else { "char_lexer" };
    let arg = d.vars.iter().find_map(|v| match &v.attr {
      Attr::Regex(_, f) => implicit(*f),
      _ => None,
    });
    let arg = arg.map_or(String::new(), |t| format!("::<{t}>"));
    writeln!(out, "  Def {{ bytes: {}, make: [{mk}({f}::<d{di}a::L>), {mk}({f}::<d{di}b::L{arg}>)], vars: &[", d.bytes).unwrap();
    for (i, v) in d.vars.iter().enumerate() {
      let ident = if v.ident.is_empty() { format!("V{i}") } else { v.ident.clone() };
      let (kind, pat, field) = match &v.attr {
        Attr::Regex(p, f) => ("Regex", p.as_str(), *f),
        Attr::Skip(p) => ("Skip", p.as_str(), Unit),
        Attr::Eof(p) => ("Eof", "", if *p { Paren } else { Unit }),
        Attr::None => ("Unused", "", Unit),
      };
      writeln!(out, "    Var {{ ident: {ident:?}, doc: &{:?}, kind: Kind::{kind}, pat: {pat:?}, field: Field::{field:?} }},", v.doc).unwrap();
    }
    writeln!(out, "  ] }},").unwrap();
  }
  writeln!(out, "];").unwrap();
  let dir = std::env::var("OUT_DIR").unwrap();
  std::fs::write(format!("{dir}/lexers.rs"), out).unwrap();
}
