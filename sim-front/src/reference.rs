//! The reference front end: a lexer on the characters that were delivered, and
//! a parser by recursive descent, both written by hand.

use simcore::excerpt::excerpt;
use simcore::model::{CharModel, Item as Sym, Loc};
use simcore::regex::{Matcher, DEAD, INIT};
use std::sync::{Mutex, OnceLock};

/// Expressions of the language, in order.
const EXPRS: &[&str] = &[
  r"\s+",
  r"//[^\n]*",
  r"/\*([^*]|\*+[^*/])*\*+/",
  r"fn|let|mut|if|else|while|return|true|false",
  r"[_a-zA-Zα-ωぁ-ん][_a-zA-Z0-9α-ωぁ-ん]*",
  r"[0-9][0-9a-zA-Z]*",
  r#""([^"\\\n]|\\[^\n])*""#,
  r"'([^'\\\n]|\\[^\n])*'",
  r"\+|-|\*|/|%|<|>|<=|>=|==|!=|&&|\|\||!|=",
  r".",
];
const BLANK: usize = 0;
const SKIPPED: usize = 3;

fn matcher() -> &'static Mutex<Matcher> {
  static M: OnceLock<Mutex<Matcher>> = OnceLock::new();
  M.get_or_init(|| {
    let exprs: Vec<_> = EXPRS
      .iter()
      .enumerate()
      .map(|(i, e)| (regex_syntax::parse(e).expect("HARNESS expression"), i))
      .collect();
    Mutex::new(Matcher::new(false, &exprs).expect("HARNESS matcher"))
  })
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
  Word(String),
  Name(String),
  Int(u64),
  Str(String),
  Char(char),
  Op(String),
  Other(char),
  Eof,
}

#[derive(Clone, Debug)]
pub struct Tok {
  pub k: K,
  pub span: (Loc, Loc),
}

fn show_span(s: (Loc, Loc)) -> String {
  format!("{}:{}-{}:{}", s.0 .0, s.0 .1, s.1 .0, s.1 .1)
}

impl Tok {
  pub fn name(&self) -> String {
    match &self.k {
      K::Word(w) => format!("keyword `{w}`"),
      K::Name(n) => format!("name `{n}`"),
      K::Int(n) => format!("integer `{n}`"),
      K::Str(s) => format!("string literal `{s}`"),
      K::Char(c) => format!("character literal `{c}`"),
      K::Op(o) => format!("operator `{o}`"),
      K::Other(c) => format!("other character `{c}`"),
      K::Eof => "eof".into(),
    }
  }

  pub fn show(&self) -> String {
    format!("{}@{}", self.name(), show_span(self.span))
  }
}

/// The value of an integer.
fn int_of(s: &str) -> Option<u64> {
  let (radix, digits) = match s.get(..2) {
    Some("0x") => (16, &s[2..]),
    Some("0o") => (8, &s[2..]),
    Some("0b") => (2, &s[2..]),
    _ => (10, s),
  };
  if digits.is_empty() {
    return None;
  }
  let mut n: u128 = 0;
  for c in digits.chars() {
    n = n * radix + c.to_digit(radix as u32)? as u128;
    if n > u64::MAX as u128 {
      return None;
    }
  }
  Some(n as u64)
}

/// The text of a literal with the given quotes.
fn text_of(text: &str) -> Option<String> {
  let c: Vec<char> = text.chars().collect();
  let mut body = c.get(1..c.len() - 1)?.iter().copied();
  let mut out = String::new();
  while let Some(c) = body.next() {
    if c == '\r' || c == '\t' {
      return None;
    }
    if c != '\\' {
      out.push(c);
      continue;
    }
    out.push(match body.next()? {
      'r' => '\r',
      'n' => '\n',
      't' => '\t',
      '0' => '\0',
      c @ ('\\' | '\'' | '"') => c,
      'x' => char::from((body.next()?.to_digit(16)? * 16 + body.next()?.to_digit(16)?) as u8),
      'u' => {
        if body.next()? != '{' {
          return None;
        }
        let mut n: Option<u32> = None;
        loop {
          match body.next()? {
            '}' => break,
            c => n = Some((n.unwrap_or(0) * 16 + c.to_digit(16)?).min(0x11_0000)),
          }
        }
        char::from_u32(n?)?
      }
      _ => return None,
    });
  }
  Some(out)
}

/// Why an operation failed.
#[derive(Clone, Debug)]
pub enum Fail {
  /// A read failed, or the text is malformed.
  Fatal(Option<u8>),
  /// Text that is not a token: the message and where it is.
  Lex(String, (Loc, Loc)),
  /// The expected construct, the offending token, and whether the token may
  /// have been taken.
  Expected(String, Tok, bool),
  /// What must happen now is not specified.
  Open,
}

type Res<T> = Result<T, Fail>;

pub struct Lexer<'m> {
  pub input: &'m mut CharModel,
  m: std::sync::MutexGuard<'static, Matcher>,
}

impl<'m> Lexer<'m> {
  fn next(&mut self) -> Res<Tok> {
    loop {
      match self.input.peek() {
        Some(Sym::IoErr(e)) => return Err(Fail::Fatal(Some(e))),
        Some(Sym::Bad) => return Err(Fail::Fatal(None)),
        Some(Sym::Eof) | None => {
          let at = self.input.loc;
          return Ok(Tok { k: K::Eof, span: (at, at) });
        }
        Some(Sym::Char(_)) => {}
      }
      let before = self.input.loc;
      let mut span = None;
      let mut state = INIT;
      let mut text = String::new();
      let eof = loop {
        let here = self.input.loc;
        match self.input.take() {
          Some(Sym::Char(c)) => {
            let next = self.m.step(state, c);
            if next == DEAD {
              self.input.unread(Some(c), here);
              break false;
            }
            state = next;
            text.push(char::from_u32(c).unwrap());
            let at = self.input.loc;
            span = Some((span.map_or(at, |s: (Loc, Loc)| s.0), at));
          }
          Some(Sym::Eof) | None => break true,
          Some(Sym::IoErr(e)) => {
            let blank = self.m.tag(state) == Some(BLANK);
            if text.is_empty() || blank {
              return Err(Fail::Fatal(Some(e)));
            }
            return Err(Fail::Open);
          }
          Some(Sym::Bad) => return Err(Fail::Open),
        }
      };
      let tag = if text.is_empty() { None } else { self.m.tag(state) };
      let span = span.unwrap_or((before, before));
      let invalid = |what: &str| Err(Fail::Lex(format!("invalid {what}"), span));
      let k = match tag {
        Some(t) if t < SKIPPED => continue,
        Some(3) => K::Word(text),
        Some(4) => K::Name(text),
        Some(5) => match int_of(&text) {
          Some(n) => K::Int(n),
          None => return invalid("integer"),
        },
        Some(6) => match text_of(&text) {
          Some(s) => K::Str(s),
          None => return invalid("string literal"),
        },
        Some(7) => match text_of(&text).filter(|s| s.chars().count() == 1) {
          Some(s) => K::Char(s.chars().next().unwrap()),
          None => return invalid("character literal"),
        },
        Some(8) => K::Op(text),
        Some(_) => K::Other(text.chars().next().unwrap()),
        None if eof => return Err(Fail::Lex("unexpected end-of-file".into(), span)),
        None => return Err(Fail::Lex("unrecognized token".into(), span)),
      };
      return Ok(Tok { k, span });
    }
  }
}

/// A parsed construct.
pub struct Out {
  pub text: String,
  pub span: Option<(Loc, Loc)>,
}

fn leaf(t: &Tok) -> Out {
  Out {
    text: t.show(),
    span: Some(t.span),
  }
}

/// A token that is shown as its value.
fn val(t: &Tok) -> Out {
  let v = match &t.k {
    K::Name(s) | K::Str(s) => format!("{s:?}"),
    K::Int(n) => format!("{n:?}"),
    K::Char(c) => format!("{c:?}"),
    _ => unreachable!(),
  };
  Out {
    text: format!("{v}@{}", show_span(t.span)),
    span: Some(t.span),
  }
}

fn none() -> Out {
  Out {
    text: "-".into(),
    span: None,
  }
}

fn node(name: &str, parts: Vec<Out>) -> Out {
  let first = parts.iter().find_map(|p| p.span);
  let last = parts.iter().rev().find_map(|p| p.span);
  let span = first.map(|f| (f.0, last.unwrap().1));
  let mut text = format!("({name}@{}", span.map_or("-".into(), show_span));
  for p in &parts {
    text.push(' ');
    text.push_str(&p.text);
  }
  text.push(')');
  Out { text, span }
}

/// Sets of tokens.
#[derive(Clone, Copy)]
pub enum P {
  Word(&'static str),
  Bool,
  Name,
  Int,
  Str,
  Char,
  Rel,
  Sum,
  Product,
  Unary,
  Op(&'static str),
  Other(char),
}

impl P {
  fn accepts(self, t: &Tok) -> bool {
    match (self, &t.k) {
      (Self::Word(w), K::Word(x)) => w == x,
      (Self::Bool, K::Word(x)) => x == "true" || x == "false",
      (Self::Name, K::Name(_)) | (Self::Int, K::Int(_)) | (Self::Str, K::Str(_)) | (Self::Char, K::Char(_)) => true,
      (Self::Rel, K::Op(o)) => ["<", ">", "<=", ">=", "==", "!="].contains(&o.as_str()),
      (Self::Sum, K::Op(o)) => ["+", "-"].contains(&o.as_str()),
      (Self::Product, K::Op(o)) => ["*", "/", "%"].contains(&o.as_str()),
      (Self::Unary, K::Op(o)) => ["-", "!"].contains(&o.as_str()),
      (Self::Op(w), K::Op(x)) => w == x,
      (Self::Other(c), K::Other(d)) => c == *d,
      _ => false,
    }
  }

  /// How it is called in messages, and whether it is the prompt of a set.
  fn name(self) -> (String, bool) {
    let plain = |k| {
      (
        Tok {
          k,
          span: ((0, 0), (0, 0)),
        }
        .name(),
        false,
      )
    };
    let prompt = |s: &str| (s.to_string(), true);
    match self {
      Self::Word(w) => plain(K::Word(w.into())),
      Self::Op(w) => plain(K::Op(w.into())),
      Self::Other(c) => plain(K::Other(c)),
      Self::Bool => prompt("boolean"),
      Self::Name => prompt("name"),
      Self::Int => prompt("integer"),
      Self::Str => prompt("string"),
      Self::Char => prompt("character"),
      Self::Rel => prompt("comparison"),
      Self::Sum => prompt("sum operator"),
      Self::Product => prompt("product operator"),
      Self::Unary => prompt("unary operator"),
    }
  }
}

const COMMA: P = P::Other(',');
const SEMI: P = P::Other(';');

pub struct Parser<'m> {
  lexer: Lexer<'m>,
  /// Tokens that were read but not taken, the next one is the last one.
  buf: Vec<Tok>,
  /// Looks at all tokens that announce a construct, even if the first one
  /// does not fit.
  eager: bool,
}

impl<'m> Parser<'m> {
  pub fn new(input: &'m mut CharModel, eager: bool) -> Self {
    let m = matcher().lock().unwrap_or_else(|e| e.into_inner());
    Self {
      lexer: Lexer { input, m },
      buf: Vec::new(),
      eager,
    }
  }

  pub fn input(&self) -> &CharModel {
    self.lexer.input
  }

  pub fn next(&mut self) -> Res<Tok> {
    match self.buf.pop() {
      Some(t) => Ok(t),
      None => self.lexer.next(),
    }
  }

  pub fn unread(&mut self, t: Tok) {
    self.buf.push(t);
  }

  pub fn peek(&mut self) -> Res<Tok> {
    let t = self.next()?;
    self.unread(t.clone());
    Ok(t)
  }

  fn at(&mut self, p: P) -> Res<bool> {
    Ok(p.accepts(&self.peek()?))
  }

  fn at_all(&mut self, ps: &[P]) -> Res<bool> {
    let mut taken = Vec::new();
    let mut ok = true;
    let mut fail = None;
    for p in ps {
      if !ok && !self.eager {
        break;
      }
      match self.next() {
        Ok(t) => {
          ok &= p.accepts(&t);
          taken.push(t);
        }
        Err(e) => {
          fail = Some(e);
          break;
        }
      }
    }
    taken.into_iter().rev().for_each(|t| self.unread(t));
    fail.map_or(Ok(ok), Err)
  }

  fn take(&mut self, p: P) -> Res<Tok> {
    let t = self.next()?;
    if p.accepts(&t) {
      return Ok(t);
    }
    let (name, prompt) = p.name();
    if !prompt {
      self.unread(t.clone());
    }
    Err(Fail::Expected(name, t, prompt))
  }

  fn tok(&mut self, p: P) -> Res<Out> {
    Ok(leaf(&self.take(p)?))
  }

  fn value(&mut self, p: P) -> Res<Out> {
    Ok(val(&self.take(p)?))
  }

  pub fn item(&mut self) -> Res<Out> {
    let p = if self.at(P::Word("fn"))? { self.function()? } else { self.stmt()? };
    Ok(node("item", vec![p]))
  }

  fn function(&mut self) -> Res<Out> {
    let mut p = vec![self.tok(P::Word("fn"))?, self.value(P::Name)?, self.tok(P::Other('('))?];
    let mut params = Vec::new();
    if self.at_param()? {
      params.push(self.param()?);
      while self.at(COMMA)? {
        self.take(COMMA)?;
        params.push(self.param()?);
      }
    }
    p.push(node("seq", params));
    p.push(self.tok(P::Other(')'))?);
    p.push(self.opt_type()?);
    p.push(self.block()?);
    Ok(node("fn", p))
  }

  fn at_param(&mut self) -> Res<bool> {
    if !self.at(P::Word("mut"))? {
      return self.at(P::Name);
    }
    let t = self.next()?;
    let r = self.at(P::Name);
    self.unread(t);
    r
  }

  fn mutable(&mut self) -> Res<Out> {
    let m = if self.at(P::Word("mut"))? { self.tok(P::Word("mut"))? } else { none() };
    Ok(node("prefix", vec![m, self.value(P::Name)?]))
  }

  fn param(&mut self) -> Res<Out> {
    Ok(node("param", vec![self.mutable()?, self.opt_type()?]))
  }

  fn opt_type(&mut self) -> Res<Out> {
    Ok(if self.at(P::Other(':'))? {
      node("type", vec![self.tok(P::Other(':'))?, self.ty()?])
    } else {
      none()
    })
  }

  fn ty(&mut self) -> Res<Out> {
    Ok(if self.at(P::Other('['))? {
      node("arrays", vec![self.tok(P::Other('['))?, self.ty()?, self.tok(P::Other(']'))?])
    } else {
      node("named", vec![self.value(P::Name)?])
    })
  }

  fn block(&mut self) -> Res<Out> {
    let l = self.tok(P::Other('{'))?;
    let mut v = Vec::new();
    while self.at_stmt()? {
      v.push(self.stmt()?);
    }
    Ok(node("block", vec![l, node("vec", v), self.tok(P::Other('}'))?]))
  }

  fn at_stmt(&mut self) -> Res<bool> {
    let t = self.peek()?;
    let one = ["let", "if", "while", "return"].map(P::Word);
    if one.iter().chain(&[P::Other('{')]).any(|p| p.accepts(&t)) || self.at_all(&[P::Name, P::Op("=")])? {
      return Ok(true);
    }
    Ok(SEMI.accepts(&t) || self.at_expr()?)
  }

  fn stmt(&mut self) -> Res<Out> {
    let t = self.peek()?;
    Ok(if P::Word("let").accepts(&t) {
      let mut p = vec![self.tok(P::Word("let"))?, self.mutable()?, self.opt_type()?];
      p.extend([self.tok(P::Op("="))?, self.expr()?, self.tok(SEMI)?]);
      node("stmt", vec![node("let", p)])
    } else if P::Word("if").accepts(&t) {
      node("stmt", vec![self.branch()?])
    } else if P::Word("while").accepts(&t) {
      node("while", vec![self.tok(P::Word("while"))?, self.expr()?, self.block()?])
    } else if P::Word("return").accepts(&t) {
      let r = self.tok(P::Word("return"))?;
      let e = if self.at_expr()? { self.expr()? } else { none() };
      let s = if self.at(SEMI)? { self.tok(SEMI)? } else { none() };
      node("return", vec![r, e, s])
    } else if P::Other('{').accepts(&t) {
      node("stmt", vec![self.block()?])
    } else if self.at_all(&[P::Name, P::Op("=")])? {
      let p = vec![self.value(P::Name)?, self.tok(P::Op("="))?, self.expr()?, self.tok(SEMI)?];
      node("stmt", vec![node("assign", p)])
    } else if SEMI.accepts(&t) {
      let mut v = vec![self.tok(SEMI)?];
      while self.at(SEMI)? {
        v.push(self.tok(SEMI)?);
      }
      node("nothing", vec![node("seq", v)])
    } else {
      node("expr", vec![self.expr()?, self.tok(SEMI)?])
    })
  }

  fn branch(&mut self) -> Res<Out> {
    let mut p = vec![self.tok(P::Word("if"))?, self.expr()?, self.block()?];
    p.push(if self.at(P::Word("else"))? {
      let e = self.tok(P::Word("else"))?;
      let b = if self.at(P::Word("if"))? {
        node("else-if", vec![self.branch()?])
      } else {
        node("else-block", vec![self.block()?])
      };
      node("else", vec![e, b])
    } else {
      none()
    });
    Ok(node("if", p))
  }

  fn at_expr(&mut self) -> Res<bool> {
    let t = self.peek()?;
    let one = [P::Unary, P::Int, P::Str, P::Char, P::Bool, P::Other('['), P::Other('(')];
    Ok(one.iter().any(|p| p.accepts(&t)) || self.at_all(&[P::Name, P::Other('(')])? || P::Name.accepts(&t))
  }

  /// A list of constructs with separators.
  fn list(&mut self, t: fn(&mut Self) -> Res<Out>, s: P) -> Res<Out> {
    let x = t(self)?;
    Ok(if self.at(s)? {
      node("more", vec![x, self.tok(s)?, self.list(t, s)?])
    } else {
      node("one", vec![x])
    })
  }

  pub fn expr(&mut self) -> Res<Out> {
    Ok(node("or", vec![self.list(Self::and, P::Op("||"))?]))
  }

  fn and(&mut self) -> Res<Out> {
    let mut v = vec![self.rel()?];
    while self.at(P::Op("&&"))? {
      self.take(P::Op("&&"))?;
      v.push(self.rel()?);
    }
    Ok(node("and", vec![node("seq", v)]))
  }

  fn rel(&mut self) -> Res<Out> {
    Ok(node("rel", vec![self.list(Self::sum, P::Rel)?]))
  }

  fn sum(&mut self) -> Res<Out> {
    Ok(node("sum", vec![self.list(Self::product, P::Sum)?]))
  }

  fn product(&mut self) -> Res<Out> {
    Ok(node("product", vec![self.list(Self::unary, P::Product)?]))
  }

  fn unary(&mut self) -> Res<Out> {
    Ok(if self.at(P::Unary)? {
      node("unary", vec![self.tok(P::Unary)?, self.unary()?])
    } else {
      node("value", vec![self.primary()?])
    })
  }

  fn primary(&mut self) -> Res<Out> {
    let t = self.peek()?;
    Ok(if P::Int.accepts(&t) {
      node("int", vec![self.value(P::Int)?])
    } else if P::Str.accepts(&t) {
      let mut v = vec![self.value(P::Str)?];
      while self.at(P::Str)? {
        v.push(self.value(P::Str)?);
      }
      node("str", vec![node("seq", v)])
    } else if P::Char.accepts(&t) {
      node("char", vec![self.value(P::Char)?])
    } else if P::Bool.accepts(&t) {
      node("bool", vec![self.tok(P::Bool)?])
    } else if P::Other('[').accepts(&t) {
      let l = self.tok(P::Other('['))?;
      let mut v = Vec::new();
      while self.at_expr()? {
        v.push(self.expr()?);
        if !self.at(COMMA)? {
          break;
        }
        self.take(COMMA)?;
      }
      node("v", vec![node("array", vec![l, node("seq", v), self.tok(P::Other(']'))?])])
    } else if P::Other('(').accepts(&t) {
      let p = vec![self.tok(P::Other('('))?, self.expr()?, self.tok(P::Other(')'))?];
      node("paren", vec![node("tuple", p)])
    } else if self.at_all(&[P::Name, P::Other('(')])? {
      let mut p = vec![self.value(P::Name)?, self.tok(P::Other('('))?];
      p.push(if self.at_expr()? { self.args()? } else { none() });
      p.push(self.tok(P::Other(')'))?);
      node("v", vec![node("call", p)])
    } else {
      node("name", vec![self.value(P::Name)?])
    })
  }

  /// Arguments, the last one may be followed by a separator.
  fn args(&mut self) -> Res<Out> {
    let x = self.expr()?;
    if !self.at(COMMA)? {
      return Ok(node("one", vec![x]));
    }
    let s = self.tok(COMMA)?;
    Ok(if self.at_expr()? {
      node("more", vec![x, s, self.args()?])
    } else {
      node("sep", vec![x, s])
    })
  }
}

/// The text of a report.
pub fn report(level: &str, msg: &str, name: &str, doc: Option<&str>, at: (Loc, Loc)) -> String {
  let ex = doc.map_or(String::new(), |d| excerpt(d, at.0, at.1));
  format!("{level}: {msg}\n  at {name}:{}:{}\n{ex}\n", at.0 .0, at.0 .1)
}
