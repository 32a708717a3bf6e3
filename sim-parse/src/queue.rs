//! Tokens, scripted tokenizers and the reference queue.

use crate::diag;
use laps::prelude::*;
use laps::span::{Location, Result as LResult, Span};
use laps::token::{Token, TokenStream, Tokenizer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

/// Kinds of tokens.
#[token_kind]
#[derive(Debug, Eq, Tokenize)]
pub enum K {
  #[skip(r"\s+")]
  _Blank,
  /// Number.
  #[regex(r"[0-9]+")]
  Num(u32),
  #[regex(r"[a-z][a-z0-9]*")]
  Word(String),
  #[regex(r"\+")]
  PlusSign,
  #[regex(r"-")]
  MinusSign,
  #[regex(r"\(")]
  Left,
  #[regex(r"\)")]
  Right,
  /// End of file
  #[eof]
  End,
}

token_ast! {
  #[derive(Debug, PartialEq)]
  pub(crate) macro crate::queue::Tok<K> {
    [num] => { kind: K::Num(_), prompt: "number" },
    [word] => { kind: K::Word(_), prompt: "word" },
    [+] => { kind: K::PlusSign },
    [-] => { kind: K::MinusSign },
    [lp] => { kind: K::Left },
    [rp] => { kind: K::Right },
    [even] => { kind: K::Num(n) if n % 2 == 0, prompt: "even number" },
    [sign] => { kind: K::PlusSign | K::MinusSign, prompt: "sign" },
    [end] => { kind: K::End },
  }
}

/// Number of token ASTs above.
pub const ASTS: usize = 9;

/// Reference definition of the token ASTs.
pub fn ast_accepts(ast: usize, k: &K) -> bool {
  match ast {
    0 => matches!(k, K::Num(_)),
    1 => matches!(k, K::Word(_)),
    2 => *k == K::PlusSign,
    3 => *k == K::MinusSign,
    4 => *k == K::Left,
    5 => *k == K::Right,
    6 => matches!(k, K::Num(n) if n % 2 == 0),
    7 => *k == K::PlusSign || *k == K::MinusSign,
    8 => *k == K::End,
    // those of `visible.rs`
    9 => *k == K::Left || *k == K::Right,
    10 => matches!(k, K::Word(w) if w.len() > 3),
    11 => matches!(k, K::Num(n) if *n > 500 && n % 3 != 0),
    12 => *k == K::MinusSign,
    13 => matches!(k, K::Num(n) if (1..=300).contains(n)),
    14 => matches!(k, K::Num(_) | K::Word(_) | K::PlusSign),
    15 => *k == K::PlusSign,
    16 => matches!(k, K::Word(w) if w.len() == 2),
    _ => unreachable!(),
  }
}

pub fn ast_prompt(ast: usize) -> (&'static str, bool) {
  // (text, stored without prompt)
  match ast {
    0 => ("number", false),
    1 => ("word", false),
    2 => ("plus sign", true),
    3 => ("minus sign", true),
    4 => ("left", true),
    5 => ("right", true),
    6 => ("even number", false),
    7 => ("sign", false),
    8 => ("end of file", true),
    9 => ("parenthesis", false),
    10 => ("long word", false),
    11 => ("large `number` {}", false),
    12 => ("minus", false),
    13 => ("small number", false),
    14 => ("anything", false),
    15 => ("plus sign", true),
    16 => ("short word", false),
    _ => unreachable!(),
  }
}

/// How a token kind is displayed.
pub fn show(k: &K) -> String {
  match k {
    K::Num(n) => format!("number `{n}`"),
    K::Word(w) => format!("word `{w}`"),
    K::PlusSign => "plus sign".into(),
    K::MinusSign => "minus sign".into(),
    K::Left => "left".into(),
    K::Right => "right".into(),
    K::End => "end of file".into(),
    K::_Blank => unreachable!(),
  }
}

/// A token in a plan.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Code(pub u8, pub u32);

impl Code {
  /// The text of the token in a document.
  pub fn text(self) -> String {
    match self.kind() {
      K::Num(n) => n.to_string(),
      K::Word(w) => w,
      K::PlusSign => "+".into(),
      K::MinusSign => "-".into(),
      K::Left => "(".into(),
      K::Right => ")".into(),
      _ => String::new(),
    }
  }

  pub fn kind(self) -> K {
    match self.0 % 7 {
      0 => K::Num(self.1),
      1 => K::Word(format!("w{}", self.1)),
      2 => K::PlusSign,
      3 => K::MinusSign,
      4 => K::Left,
      5 => K::Right,
      _ => K::End,
    }
  }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum TItem {
  Tok(Code),
  /// The tokenizer fails, fatally or not.
  Fail(bool),
}

/// The simulated tokenizer.
pub struct SimTok {
  pub base: Span,
  pub state: Rc<RefCell<TokState>>,
}

pub struct TokState {
  pub items: Vec<TItem>,
  pub pos: usize,
}

/// Where the token is: in a line of its own, some reach into the next lines.
pub fn make(base: &Span, id: usize, kind: K) -> Token<K> {
  let (line, col) = (id as u32 * 3 + 1, 1 + id as u32 % 7);
  let mut span = base.clone();
  span.update_loc(Location { line, col });
  let mut end = base.clone();
  end.update_loc(match id % 4 {
    3 => Location {
      line: line + 1 + id as u32 % 2,
      col: 1 + id as u32 % 5,
    },
    _ => Location {
      line,
      col: col + id as u32 % 3,
    },
  });
  span.update_end(end);
  Token { kind, span }
}

impl Tokenizer for SimTok {
  type Token = Token<K>;
  fn next_token(&mut self) -> LResult<Token<K>> {
    let mut s = self.state.borrow_mut();
    let id = s.pos;
    s.pos += 1;
    if id > s.items.len() + 100_000 {
      panic!("livelock: the tokenizer was called {id} times");
    }
    match s.items.get(id) {
      Some(TItem::Tok(c)) => Ok(make(&self.base, id, c.kind())),
      Some(TItem::Fail(true)) => Err(diag::simulated(true)),
      Some(TItem::Fail(false)) => Err(diag::simulated(false)),
      None => Ok(make(&self.base, id, K::End)),
    }
  }
}

/// A token stream that only has the required methods.
pub struct Minimal {
  pub tokenizer: SimTok,
  pub buf: Vec<Token<K>>,
}

impl Tokenizer for Minimal {
  type Token = Token<K>;
  fn next_token(&mut self) -> LResult<Token<K>> {
    match self.buf.pop() {
      Some(t) => Ok(t),
      None => self.tokenizer.next_token(),
    }
  }
}

impl TokenStream for Minimal {
  fn unread(&mut self, token: Token<K>) {
    self.buf.push(token)
  }
}

/// Model of a token: identity and kind.
pub type MTok = (usize, K);

/// Reference model: a plain queue of tokens and failures.
#[derive(Clone)]
pub struct Model {
  pub items: Rc<Vec<TItem>>,
  pub front: VecDeque<MTok>,
  /// Number of tokens and failures taken from the tokenizer.
  pub pos: usize,
}

impl Model {
  pub fn at(&self, id: usize) -> Result<MTok, bool> {
    match self.items.get(id) {
      Some(TItem::Tok(c)) => Ok((id, c.kind())),
      Some(TItem::Fail(f)) => Err(*f),
      None => Ok((id, K::End)),
    }
  }

  /// Takes the next token, or the next failure.
  pub fn next(&mut self) -> Result<MTok, bool> {
    if let Some(t) = self.front.pop_front() {
      return Ok(t);
    }
    let r = self.at(self.pos);
    self.pos += 1;
    r
  }

  pub fn unread(&mut self, t: MTok) {
    self.front.push_front(t);
  }

  /// Peeks `n` tokens; a failure in between is observed and removed.
  pub fn peek_n(&mut self, n: usize) -> Result<Vec<MTok>, bool> {
    let mut v = Vec::new();
    let mut err = None;
    for _ in 0..n {
      match self.next() {
        Ok(t) => v.push(t),
        Err(f) => {
          err = Some(f);
          break;
        }
      }
    }
    for t in v.iter().rev() {
      self.unread(t.clone());
    }
    match err {
      Some(f) => Err(f),
      None => Ok(v),
    }
  }
}

pub fn id_of(t: &Token<K>) -> MTok {
  (t.span.start().line as usize / 3, t.kind.clone())
}

pub fn fmt_one(r: Result<MTok, bool>) -> String {
  match r {
    Ok((id, k)) => format!("{k:?}#{id}"),
    Err(true) => "fatal error".into(),
    Err(false) => "error".into(),
  }
}

pub fn fmt_many(r: Result<Vec<MTok>, bool>) -> String {
  match r {
    Ok(v) => {
      let v: Vec<_> = v.into_iter().map(|t| fmt_one(Ok(t))).collect();
      format!("[{}]", v.join(" "))
    }
    Err(f) => fmt_one(Err(f)),
  }
}

pub fn res<T, U>(r: LResult<T>, f: impl FnOnce(T) -> U) -> Result<U, bool> {
  match r {
    Ok(t) => Ok(f(t)),
    Err(e) => Err(diag::is_fatal(&e)),
  }
}

