//! The reference lexer: longest matches on the characters that were delivered.

use simcore::model::{CharModel, Item as Sym, Loc};
use simcore::regex::{Matcher, DEAD, INIT};
use std::sync::{Mutex, MutexGuard, OnceLock};

pub type Span = (Loc, Loc);

#[derive(Clone, Debug, PartialEq)]
pub enum K {
  /// A keyword, an operator, or some other text that is named by itself.
  Text(&'static str, String),
  Int(u64),
  Float(f64),
  Eof,
}

#[derive(Clone, Debug)]
pub struct Tok {
  pub k: K,
  pub span: Span,
}

impl Tok {
  pub fn name(&self, lang: &Lang) -> String {
    match &self.k {
      K::Text(kind, s) => format!("{kind} `{s}`"),
      K::Int(n) => format!("{} `{n}`", lang.number),
      K::Float(n) => format!("{} `{n}`", lang.number),
      K::Eof => "end-of-file".into(),
    }
  }
}

/// Why a program stopped.
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
  /// A read failed, or the text is malformed.
  Fatal(Option<u8>),
  /// A message about a place.
  At(String, Span),
  /// A message.
  Plain(String),
  /// What must happen is not specified.
  Open,
  /// The program has no defined result.
  Undefined,
}

pub type Res<T> = Result<T, Fail>;

/// The tokens of a program.
pub struct Lang {
  /// Expressions, the first one is skipped.
  pub exprs: &'static [&'static str],
  /// Makes the token of an expression, or the name of what is invalid.
  pub token: fn(usize, &str, hex: bool) -> Result<K, &'static str>,
  pub number: &'static str,
  pub matcher: OnceLock<Mutex<Matcher>>,
}

impl Lang {
  pub const fn new(
    exprs: &'static [&'static str],
    number: &'static str,
    token: fn(usize, &str, bool) -> Result<K, &'static str>,
  ) -> Self {
    Self {
      exprs,
      token,
      number,
      matcher: OnceLock::new(),
    }
  }
}

/// Tokens, and how a parser sees them.
pub struct Tokens<'m> {
  pub lang: &'static Lang,
  pub input: &'m mut CharModel,
  m: MutexGuard<'static, Matcher>,
  buf: Vec<Tok>,
  /// Looks at all tokens that announce a construct, even if the first one
  /// does not fit.
  eager: bool,
  /// A known defect of the program.
  defect: bool,
}

/// A set of tokens.
#[derive(Clone, Copy)]
pub enum P {
  /// The given text, and how it is called in messages.
  Is(&'static str, &'static str),
  /// All tokens of a kind, and their prompt.
  Kind(&'static str, &'static str),
  Number(&'static str),
  Eof,
}

impl P {
  pub fn accepts(self, t: &Tok) -> bool {
    match (self, &t.k) {
      (Self::Is(kind, s), K::Text(k, t)) => kind == *k && s == t,
      (Self::Kind(kind, _), K::Text(k, _)) => kind == *k,
      (Self::Number(_), K::Int(_) | K::Float(_)) | (Self::Eof, K::Eof) => true,
      _ => false,
    }
  }

  fn name(self) -> String {
    match self {
      Self::Is(kind, s) => format!("{kind} `{s}`"),
      Self::Kind(_, prompt) | Self::Number(prompt) => prompt.into(),
      Self::Eof => "end-of-file".into(),
    }
  }
}

impl<'m> Tokens<'m> {
  pub fn new(lang: &'static Lang, input: &'m mut CharModel, eager: bool, defect: bool) -> Self {
    let m = lang.matcher.get_or_init(|| {
      let exprs: Vec<_> = lang
        .exprs
        .iter()
        .enumerate()
        .map(|(i, e)| (regex_syntax::parse(e).expect("HARNESS expression"), i))
        .collect();
      Mutex::new(Matcher::new(false, &exprs).expect("HARNESS matcher"))
    });
    Self {
      lang,
      input,
      m: m.lock().unwrap_or_else(|e| e.into_inner()),
      buf: Vec::new(),
      eager,
      defect,
    }
  }

  fn lex(&mut self) -> Res<Tok> {
    loop {
      match self.input.peek() {
        Some(Sym::IoErr(e)) => return Err(Fail::Fatal(Some(e))),
        Some(Sym::Bad) => return Err(Fail::Fatal(None)),
        Some(Sym::Eof) | None => {
          let at = self.input.loc;
          return Ok(Tok { k: K::Eof, span: (at, at) });
        }
        Some(Sym::Char(_)) => {}
      }
      let before = self.input.loc;
      let mut span = None;
      let mut state = INIT;
      let mut text = String::new();
      let eof = loop {
        let here = self.input.loc;
        match self.input.take() {
          Some(Sym::Char(c)) => {
            let next = self.m.step(state, c);
            if next == DEAD {
              self.input.unread(Some(c), here);
              break false;
            }
            state = next;
            text.push(char::from_u32(c).unwrap());
            let at = self.input.loc;
            span = Some((span.map_or(at, |s: Span| s.0), at));
          }
          Some(Sym::Eof) | None => break true,
          Some(Sym::IoErr(e)) => {
            let blank = self.m.tag(state) == Some(0);
            if text.is_empty() || blank {
              return Err(Fail::Fatal(Some(e)));
            }
            return Err(Fail::Open);
          }
          Some(Sym::Bad) => return Err(Fail::Open),
        }
      };
      let tag = if text.is_empty() { None } else { self.m.tag(state) };
      let span = span.unwrap_or((before, before));
      return match tag {
        Some(0) => continue,
        Some(t) => match (self.lang.token)(t, &text, self.defect) {
          Ok(k) => Ok(Tok { k, span }),
          Err(what) => Err(Fail::At(format!("invalid {what}"), span)),
        },
        None if eof => Err(Fail::At("unexpected end-of-file".into(), span)),
        None => Err(Fail::At("unrecognized token".into(), span)),
      };
    }
  }

  pub fn next(&mut self) -> Res<Tok> {
    match self.buf.pop() {
      Some(t) => Ok(t),
      None => self.lex(),
    }
  }

  pub fn at(&mut self, p: P) -> Res<bool> {
    let t = self.next()?;
    let r = p.accepts(&t);
    self.buf.push(t);
    Ok(r)
  }

  pub fn at_all(&mut self, ps: &[P]) -> Res<bool> {
    let mut taken = Vec::new();
    let mut ok = true;
    let mut fail = None;
    for p in ps {
      if !ok && !self.eager {
        break;
      }
      match self.next() {
        Ok(t) => {
          ok &= p.accepts(&t);
          taken.push(t);
        }
        Err(e) => {
          fail = Some(e);
          break;
        }
      }
    }
    self.buf.extend(taken.into_iter().rev());
    fail.map_or(Ok(ok), Err)
  }

  pub fn take(&mut self, p: P) -> Res<Tok> {
    let t = self.next()?;
    if p.accepts(&t) {
      return Ok(t);
    }
    let msg = format!("expected {}, found {}", p.name(), t.name(self.lang));
    Err(Fail::At(msg, t.span))
  }

  /// Takes the text of a token.
  pub fn text(&mut self, p: P) -> Res<(String, Span)> {
    let t = self.take(p)?;
    match t.k {
      K::Text(_, s) => Ok((s, t.span)),
      _ => unreachable!(),
    }
  }
}
