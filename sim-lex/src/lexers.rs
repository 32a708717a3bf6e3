//! L01, L02: derived lexers over simulated sources.

use crate::diag;
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Result as LResult, Span};
use laps::token::{Token, TokenBuffer, Tokenizer};
use serde::{Deserialize, Serialize};
use simcore::excerpt::excerpt;
use simcore::model::*;
use simcore::os::{self, Node};
use simcore::regex::{Matcher, DEAD, INIT};
use simcore::{ensure, Ctx, Feed, Out, Prop, Rng, SimRead, Step, Viol};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::path::Path;
use std::rc::Rc;
use std::sync::{Mutex, OnceLock};

include!(concat!(env!("OUT_DIR"), "/lexers.rs"));

/// The index of the variant and its value.
pub trait Desc {
  fn desc(&self) -> (usize, String);
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Field {
  Unit,
  Paren,
  Text,
  Char,
  U8,
  I32,
  F64,
  Bool,
  Even,
  Int,
  Len,
  Never,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
  Regex,
  Skip,
  Eof,
  Unused,
}

pub struct Var {
  ident: &'static str,
  doc: &'static [&'static str],
  pub kind: Kind,
  pat: &'static str,
  pub field: Field,
}

pub enum Make {
  Chars(fn(CharInput) -> Box<dyn Lx>),
  Bytes(fn(ByteInput) -> Box<dyn Lx>),
}

pub struct Def {
  pub bytes: bool,
  pub make: [Make; 2],
  pub vars: &'static [Var],
}

fn len_chars(s: &str) -> Option<usize> {
  Some(s.chars().count())
}

fn int_bytes(b: &[u8]) -> Option<i64> {
  laps::lexer::int_literal(std::str::from_utf8(b).ok()?)
}

/// An input stream that only provides the required methods.
pub struct Minimal<I>(pub I);

impl<I: InputStream> InputStream for Minimal<I> {
  type CharType = I::CharType;
  fn next_char_loc(&mut self) -> LResult<(Option<I::CharType>, Location)> {
    self.0.next_char_loc()
  }
  fn unread(&mut self, last: (Option<I::CharType>, Location)) {
    self.0.unread(last)
  }
  fn span(&self) -> &Span {
    self.0.span()
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.0.set_line_col(line, col)
  }
}

macro_rules! input {
  ($name:ident, $reader:ident, $char:ty, $mem:ty) => {
    /// All kinds of inputs.
    pub enum $name {
      Sim($reader<SimRead>),
      Mem($reader<$mem>),
      File($reader<std::fs::File>),
      Min(Minimal<$reader<SimRead>>),
    }

    macro_rules! each {
      ($self:ident, $i:ident => $e:expr) => {
        match $self {
          $name::Sim($i) => $e,
          $name::Mem($i) => $e,
          $name::File($i) => $e,
          $name::Min($i) => $e,
        }
      };
    }

    impl InputStream for $name {
      type CharType = $char;
      fn next_char_loc(&mut self) -> LResult<(Option<$char>, Location)> {
        each!(self, i => i.next_char_loc())
      }
      fn unread(&mut self, last: (Option<$char>, Location)) {
        each!(self, i => i.unread(last))
      }
      fn span(&self) -> &Span {
        each!(self, i => i.span())
      }
      fn set_line_col(&mut self, line: u32, col: u32) {
        each!(self, i => i.set_line_col(line, col))
      }
      fn next_char(&mut self) -> LResult<Option<$char>> {
        each!(self, i => i.next_char())
      }
      fn next_char_span(&mut self) -> LResult<(Option<$char>, Span)> {
        each!(self, i => i.next_char_span())
      }
      fn next_span(&mut self) -> LResult<&Span> {
        each!(self, i => i.next_span())
      }
      fn peek(&mut self) -> LResult<Option<$char>> {
        each!(self, i => i.peek())
      }
      fn peek_with_span(&mut self) -> LResult<(Option<$char>, Span)> {
        each!(self, i => i.peek_with_span())
      }
    }
  };
}

mod chars {
  use super::*;
  input!(CharInput, Reader, char, std::io::Cursor<String>);
}
mod bytes {
  use super::*;
  input!(ByteInput, ByteReader, u8, &'static [u8]);
}
pub use bytes::ByteInput;
pub use chars::CharInput;

/// A lexer whose kind of token has been erased.
pub trait Lx {
  fn next(&mut self) -> LResult<(usize, String, Span)>;
  fn skip_one(&mut self) -> LResult<Option<u32>>;
  fn span(&self) -> Span;
  /// The same as [`Lx::next`], without the lexer.
  fn direct(&mut self) -> LResult<(usize, String, Span)>;
  /// The same as [`Lx::next`], through a token buffer that is taken apart again.
  fn buffered(self: Box<Self>, by: u8) -> (LResult<(usize, String, Span)>, Box<dyn Lx>);
  fn input_mut(&mut self) -> &mut dyn Any;
  fn into_input(self: Box<Self>) -> Box<dyn Any>;
}

fn erase<K: Desc>(t: Token<K>) -> (usize, String, Span) {
  let (i, v) = t.kind.desc();
  (i, v, t.span)
}

impl<I, K, C> Lx for Lexer<I, K>
where
  I: InputStream<CharType = C> + 'static,
  K: Tokenize<CharType = C> + Desc + 'static,
  C: Into<u32>,
{
  fn next(&mut self) -> LResult<(usize, String, Span)> {
    self.next_token().map(erase)
  }
  fn skip_one(&mut self) -> LResult<Option<u32>> {
    Ok(self.input_mut().next_char()?.map(|c| c.into()))
  }
  fn span(&self) -> Span {
    self.input().span().clone()
  }
  fn direct(&mut self) -> LResult<(usize, String, Span)> {
    K::next_token(Lexer::input_mut(self)).map(erase)
  }
  fn buffered(self: Box<Self>, by: u8) -> (LResult<(usize, String, Span)>, Box<dyn Lx>) {
    match by % 3 {
      0 => {
        let mut b = TokenBuffer::new(*self);
        let t = b.next_token().map(erase);
        (t, Box::new(b.into_inner()))
      }
      1 => {
        let mut b: TokenBuffer<Self, Token<K>> = TokenBuffer::from(*self);
        let t = b.inner_mut().next_token().map(erase);
        (t, Box::new(b.into_inner()))
      }
      _ => {
        let mut b = TokenBuffer::new(*self);
        let t = b.next_token().map(erase);
        let here = b.inner().input().span().clone();
        let i = b.into_inner().into_input();
        assert_eq!(i.span(), &here, "the input is another one");
        (t, Box::new(K::lexer(i)))
      }
    }
  }
  fn input_mut(&mut self) -> &mut dyn Any {
    Lexer::input_mut(self)
  }
  fn into_input(self: Box<Self>) -> Box<dyn Any> {
    Box::new(Lexer::into_input(*self))
  }
}

pub fn char_lexer<K: Tokenize<CharType = char> + Desc + 'static>(i: CharInput) -> Box<dyn Lx> {
  Box::new(K::lexer(i))
}

fn byte_lexer<K: Tokenize<CharType = u8> + Desc + 'static>(i: ByteInput) -> Box<dyn Lx> {
  Box::new(K::lexer(i))
}

/// The reference of a definition.
pub struct Reference {
  pub m: Matcher,
  /// Blanks that are skipped one by one without an effect on other tokens.
  pub blanks: Vec<u32>,
  /// Names of tokens in messages.
  pub names: Vec<String>,
  pub eof: Option<usize>,
}

fn name_of(v: &Var) -> String {
  let lines: Vec<&str> = v.doc.iter().map(|l| l.trim()).collect();
  let text = lines.join(" ").trim().to_string();
  if !text.is_empty() {
    let lower = text.to_ascii_lowercase();
    return lower.strip_suffix('.').unwrap_or(&lower).to_string();
  }
  let mut out = String::new();
  for c in v.ident.chars() {
    if c.is_ascii_uppercase() && !out.is_empty() {
      out.push(' ');
    }
    out.push(c.to_ascii_lowercase());
  }
  out
}

pub fn reference(d: usize) -> &'static Mutex<Reference> {
  static REFS: OnceLock<Vec<OnceLock<Mutex<Reference>>>> = OnceLock::new();
  let refs = REFS.get_or_init(|| DEFS.iter().map(|_| OnceLock::new()).collect());
  refs[d].get_or_init(|| {
    let def = &DEFS[d];
    let mut exprs = Vec::new();
    for (i, v) in def.vars.iter().enumerate() {
      if matches!(v.kind, Kind::Regex | Kind::Skip) {
        exprs.push((regex_syntax::parse(v.pat).expect("HARNESS expression"), i));
      }
    }
    let mut m = Matcher::new(def.bytes, &exprs).expect("HARNESS matcher");
    let blanks = [' ', '\t', '\n', '\r']
      .into_iter()
      .map(|c| c as u32)
      .filter(|c| m.loops(*c).is_some_and(|t| def.vars[t].kind == Kind::Skip))
      .collect::<Vec<_>>();
    Mutex::new(Reference {
      m,
      blanks,
      names: def.vars.iter().map(name_of).collect(),
      eof: def.vars.iter().position(|v| v.kind == Kind::Eof),
    })
  })
}

/// An integer as the documentation describes it.
pub fn int_of(s: &str) -> Option<i64> {
  let (radix, digits) = match s.get(..2) {
    Some("0x") => (16, &s[2..]),
    Some("0o") => (8, &s[2..]),
    Some("0b") => (2, &s[2..]),
    _ => (10, s),
  };
  if digits.is_empty() {
    return None;
  }
  let mut n: i128 = 0;
  for c in digits.chars() {
    n = n * radix + c.to_digit(radix as u32)? as i128;
    if n > i64::MAX as i128 {
      return None;
    }
  }
  Some(n as i64)
}

/// The value of a token, [`None`] if the text is invalid.
pub fn value(def: &Def, f: Field, text: &[u32]) -> Option<String> {
  let s: String = if def.bytes {
    text.iter().map(|b| *b as u8 as char).collect()
  } else {
    text.iter().map(|c| char::from_u32(*c).unwrap()).collect()
  };
  let plain = || {
    if def.bytes {
      format!("{:?}", text.iter().map(|b| *b as u8).collect::<Vec<_>>())
    } else {
      format!("{s:?}")
    }
  };
  Some(match f {
    Field::Unit | Field::Paren => String::new(),
    Field::Text => plain(),
    Field::Char => format!("{:?}", s.parse::<char>().ok()?),
    Field::U8 => format!("{:?}", s.parse::<u8>().ok()?),
    Field::I32 => format!("{:?}", s.parse::<i32>().ok()?),
    Field::F64 => format!("{:?}", s.parse::<f64>().ok()?),
    Field::Bool => format!("{:?}", s.parse::<bool>().ok()?),
    Field::Even => (text.len() % 2 == 0).then(plain)?,
    Field::Int => int_of(&s)?.to_string(),
    Field::Len => text.len().to_string(),
    Field::Never => return None,
  })
}

/// What a call of the lexer must do.
#[derive(Debug)]
enum Want {
  Token(usize, String),
  /// Message of the error.
  Error(String),
}

#[derive(Debug)]
struct Step1 {
  want: Want,
  /// Range of the text, it is consumed.
  from: usize,
  to: usize,
  /// The lexer had to look at the symbol behind the text.
  looked: bool,
}

/// Takes the next token from the document.
fn lex(def: &Def, r: &mut Reference, doc: &[u32], mut from: usize) -> Step1 {
  loop {
    let mut state = INIT;
    let mut to = from;
    while to < doc.len() {
      let n = r.m.step(state, doc[to]);
      if n == DEAD {
        break;
      }
      state = n;
      to += 1;
    }
    let looked = r.m.alive(state);
    let tag = if to > from { r.m.tag(state) } else { None };
    let want = match tag.map(|t| (t, &def.vars[t])) {
      Some((_, v)) if v.kind == Kind::Skip => {
        from = to;
        continue;
      }
      Some((t, v)) => match value(def, v.field, &doc[from..to]) {
        Some(s) => Want::Token(t, s),
        None => Want::Error(format!("invalid {}", r.names[t])),
      },
      None if to == doc.len() => match r.eof.filter(|_| to == from) {
        Some(e) => Want::Token(e, String::new()),
        None => Want::Error("unexpected end-of-file".into()),
      },
      None => Want::Error("unrecognized token".into()),
    };
    return Step1 {
      want,
      from,
      to,
      looked,
    };
  }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Stream {
  Memory,
  Sim,
  Minimal,
  File,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  def: usize,
  copy: usize,
  stream: Stream,
  /// Symbols of the document.
  doc: Vec<u32>,
  corrupt: Vec<Corrupt>,
  /// Delivery of the document in symbols and failures in between.
  steps: Vec<Step>,
  tail: usize,
  /// How often the lexer is called before a symbol is skipped.
  repeat: usize,
  /// Reports are made for a file with the same contents.
  on_disk: bool,
}

pub const FILE: &str = "/simfs/input.txt";

pub fn loc_of(s: &Span) -> (Loc, Loc) {
  ((s.start().line, s.start().col), (s.end().line, s.end().col))
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let def = &DEFS[plan.def % DEFS.len()];
  let mut r = reference(plan.def % DEFS.len()).lock().unwrap_or_else(|e| e.into_inner());
  let r = &mut *r;
  // the document
  let mut data: Vec<u8> = Vec::new();
  for c in &plan.doc {
    match char::from_u32(*c) {
      _ if def.bytes => data.push(*c as u8),
      Some(c) => data.extend(c.encode_utf8(&mut [0; 4]).bytes()),
      None => return Ok(()),
    }
  }
  let source = Source {
    doc: String::new(),
    corrupt: plan.corrupt.clone(),
    steps: Vec::new(),
    tail: 0,
  };
  if !plan.corrupt.is_empty() {
    data = source.corrupted(data);
  }
  // the symbols which the lexer gets, and whether malformed data is behind them
  let (doc, bad): (Vec<u32>, bool) = if def.bytes {
    (data.iter().map(|b| *b as u32).collect(), false)
  } else {
    match std::str::from_utf8(&data) {
      Ok(s) => (s.chars().map(|c| c as u32).collect(), false),
      Err(e) => {
        let s = std::str::from_utf8(&data[..e.valid_up_to()]).unwrap();
        (s.chars().map(|c| c as u32).collect(), true)
      }
    }
  };
  let mut locs = vec![(1, 0)];
  for c in &doc {
    locs.push(advance(*locs.last().unwrap(), *c));
  }
  // location of the first and the last symbol of a text
  let span_at = |from: usize, to: usize| -> (Loc, Loc) {
    if from < to {
      (locs[from + 1], locs[to])
    } else if from < doc.len() {
      (locs[from + 1], locs[from + 1])
    } else {
      (locs[from], locs[from])
    }
  };
  // the input
  let real_file = plan.stream == Stream::File;
  let path = Path::new(FILE);
  let ft = if plan.on_disk || real_file { FileType::File(path.into()) } else { FileType::Buffer };
  let feed = Rc::new(RefCell::new(Feed::new(data.clone(), plan.steps.clone(), plan.tail)));
  if plan.on_disk || real_file {
    // the logger reads it again
    let first = real_file.then(|| feed.clone());
    os::with(|o| o.files.push((FILE.into(), Node::Data(first, data.clone()))));
  }
  let sim = SimRead(feed.clone());
  let mut lexer = match &def.make[plan.copy % 2] {
    Make::Chars(f) => f(match plan.stream {
      Stream::Memory if !bad && !plan.on_disk => CharInput::Mem(Reader::from(String::from_utf8(data.clone()).unwrap())),
      Stream::File => CharInput::File(Reader::from_path(FILE).expect("HARNESS open")),
      Stream::Minimal => CharInput::Min(Minimal(Reader::new(sim, ft.clone()))),
      _ => CharInput::Sim(Reader::new(sim, ft.clone())),
    }),
    Make::Bytes(f) => f(match plan.stream {
      Stream::Memory if !plan.on_disk => {
        let data: &'static [u8] = Box::leak(data.clone().into_boxed_slice());
        ByteInput::Mem(ByteReader::from(data))
      }
      Stream::File => ByteInput::File(ByteReader::from_path(FILE).expect("HARNESS open")),
      Stream::Minimal => ByteInput::Min(Minimal(ByteReader::new(sim, ft.clone()))),
      _ => ByteInput::Sim(ByteReader::new(sim, ft.clone())),
    }),
  };
  let root = lexer.span();
  let mut pos = 0;
  let mut errors = 0;
  let mut calls = 0;
  let mut stuck = 0;
  let mut done = 0;
  let mut excerpts = 0;
  let limit = doc.len() * (plan.repeat + 3) + plan.steps.len() + 16;
  while done < 3 {
    calls += 1;
    ensure!(calls < limit, "livelock", "the lexer was called {calls} times");
    let served = feed.borrow().log.len();
    diag::take();
    let got = lexer.next();
    let _ = got.as_ref().is_err_and(|e| diag::is_fatal(e));
    let text = diag::take();
    let failed = feed.borrow().log[served..].iter().find_map(|o| match o {
      Out::Fail(e) => Some(*e),
      _ => None,
    });
    let want = lex(def, r, &doc, pos);
    let show = match &got {
      Ok((i, v, s)) => format!("token {i} {v} at {s}"),
      Err(e) => format!("{} error, {text:?}", if diag::is_fatal(&e) { "fatal" } else { "normal" }),
    };
    ctx.log(|| format!("{pos}: {show}"));
    let fatal = |e: &LResult<(usize, String, Span)>| matches!(e, Err(e) if diag::is_fatal(e));
    if let Some(e) = failed {
      // the lexer met a failing read
      errors += 1;
      ensure!(fatal(&got), "failed-read", "position {pos}: a read failed, got {show}");
      let cause = simcore::feed::error_of(e).to_string();
      ensure!(
        text.matches("error: ").count() == 1 && text.contains(&cause),
        "failed-read",
        "position {pos}: printed {text:?}, expected one error with {cause:?}"
      );
      ensure!(root.error_num() == errors, "count", "{} errors counted, expected {errors}", root.error_num());
      // between two tokens?
      let mut at = if def.bytes {
        feed.borrow().pos
      } else {
        String::from_utf8_lossy(&data[..feed.borrow().pos]).chars().filter(|c| *c != '\u{fffd}').count()
      };
      at = at.min(doc.len());
      if pos <= at && doc[pos..at].iter().all(|c| r.blanks.contains(c)) {
        ctx.count("probe.failed_between", 1);
        ctx.nontrivial = true;
        pos = at;
        continue;
      }
      ctx.count("probe.failed_inside", 1);
      return Ok(());
    }
    let (from, to) = (want.from, want.to);
    if bad && to == doc.len() {
      // malformed data is reached
      let need = want.looked;
      if need || fatal(&got) {
        errors += 1;
        ensure!(fatal(&got), "malformed", "position {pos}: malformed data is not reported: {show}");
        ensure!(
          text.matches("error: ").count() == 1,
          "malformed",
          "position {pos}: printed {text:?}"
        );
        ensure!(root.error_num() == errors, "count", "{} errors counted, expected {errors}", root.error_num());
        ctx.count("probe.malformed", 1);
        ctx.nontrivial = true;
        return Ok(());
      }
    }
    let at = span_at(from, to);
    match (&want.want, &got) {
      (Want::Token(t, v), Ok((i, x, s))) => {
        ensure!(
          t == i && v == x,
          "token",
          "position {pos}: expected token {t} with value {v}, got {show}"
        );
        ensure!(loc_of(s) == at, "span", "position {pos}: token {i} at {s}, expected {at:?}");
        ensure!(text.is_empty(), "report", "position {pos}: printed {text:?}");
        s.clone().update(&'x');
        let eof = def.vars[*t].kind == Kind::Eof;
        done += eof as usize;
        ctx.count(if eof { "probe.eof_token" } else { "probe.token" }, 1);
      }
      (Want::Error(msg), Err(e)) => {
        errors += 1;
        ensure!(!diag::is_fatal(&e), "error", "position {pos}: fatal error, expected {msg:?}");
        let ex = if diag::LOGGER && (plan.on_disk || real_file) { excerpt_of(&data, at) } else { Some(String::new()) };
        excerpts += ex.as_ref().is_some_and(|x| !x.is_empty()) as usize;
        let name = if plan.on_disk || real_file { FILE } else { "<buffer>" };
        let head = format!("error: {msg}\n  at {name}:{}:{}\n", (at.0).0, (at.0).1);
        let ok = match &ex {
          Some(ex) => text == format!("{head}{ex}\n"),
          None => text.starts_with(&head),
        };
        ensure!(ok, "report", "position {pos}: printed\n{text}expected\n{head}{}", ex.unwrap_or_default());
        if to == doc.len() && !bad {
          done += 1;
        }
        ctx.nontrivial = true;
        ctx.count(
          match msg.as_str() {
            "unrecognized token" if from == to => "probe.unrecognized",
            "unrecognized token" => "probe.incomplete",
            "unexpected end-of-file" => "probe.unexpected_eof",
            _ => "probe.invalid_value",
          },
          1,
        );
      }
      _ => return Viol::new("token", format!("position {pos}: expected {:?}, got {show}", want.want)),
    }
    ensure!(root.error_num() == errors, "count", "{} errors counted, expected {errors}", root.error_num());
    ensure!(root.warning_num() == 0, "count", "{} warnings counted", root.warning_num());
    let here = loc_of(&lexer.span());
    ensure!(
      here == (locs[to], locs[to]),
      "location",
      "position {pos}: the input is at {here:?}, expected {:?}",
      locs[to]
    );
    if to == pos && to < doc.len() {
      // the first symbol does not fit: it stays, and can be skipped
      stuck += 1;
      if stuck > plan.repeat {
        stuck = 0;
        match lexer.skip_one() {
          Ok(c) => {
            ensure!(
              c == Some(doc[pos]),
              "resume",
              "position {pos}: the next symbol is {c:?}, expected {:?}",
              doc[pos]
            );
            pos += 1;
          }
          Err(_) => return Ok(()),
        }
      }
    } else {
      stuck = 0;
      pos = to;
      ctx.nontrivial |= to - from > 1;
    }
  }
  ctx.count("probe.excerpt", excerpts as u64);
  ctx.count_feed(&feed.borrow());
  ctx.count(if def.bytes { "probe.bytes" } else { "probe.chars" }, 1);
  Ok(())
}

/// The excerpt of a report, if the file is valid and the logger can read it.
fn excerpt_of(data: &[u8], at: (Loc, Loc)) -> Option<String> {
  let doc = std::str::from_utf8(data).ok()?;
  Some(excerpt(doc, at.0, at.1))
}

fn gen(r: &mut Rng, deep: bool, hard: bool) -> Plan {
  let d = r.below(DEFS.len());
  let def = &DEFS[d];
  let mut refr = reference(d).lock().unwrap_or_else(|e| e.into_inner());
  let refr = &mut *refr;
  // pieces of the document
  let n = r.range(1, if deep { 24 } else { 9 });
  let noise = if hard { r.range(1, 4) } else { r.below(2) };
  let blanks = refr.blanks.clone();
  let blank = if blanks.is_empty() { 0 } else { r.below(10) };
  let max = if r.chance(1, 8) { 300 } else { 24 };
  let mut doc: Vec<u32> = Vec::new();
  let mut cuts = BTreeSet::from([0]);
  for _ in 0..n {
    match r.weighted(&[10, noise, noise]) {
      0 => doc.extend(refr.m.text(r, max)),
      1 => (0..r.range(1, 3)).for_each(|_| doc.push(refr.m.symbol(r))),
      _ => {
        let mut t = refr.m.text(r, max);
        t.truncate(r.below(t.len() + 1));
        doc.extend(t);
      }
    }
    if r.below(10) < blank {
      for _ in 0..r.range(1, 3) {
        doc.push(*r.pick(&blanks));
        cuts.insert(doc.len());
      }
    }
  }
  // sometimes long enough for tokens and locations to exceed 16 bits
  let scale = match r.below(10_000) {
    0 => r.range(65_600, 70_000),
    1..=9 => r.range(2000, 9000),
    _ => 0,
  };
  if !doc.is_empty() {
    while doc.len() < scale {
      let k = doc.len().min(scale - doc.len());
      doc.extend_from_within(..k);
    }
  }
  doc.retain(|c| def.bytes || char::from_u32(*c).is_some());
  let len_of = |c: u32| if def.bytes { 1 } else { char::from_u32(c).map_or(1, |c| c.len_utf8()) };
  let total: usize = doc.iter().map(|c| len_of(*c)).sum();
  let f = Faults {
    eintr: true,
    ..Default::default()
  };
  let (mut steps, mut tail) = gen_steps(r, total, f);
  if hard && r.chance(1, 2) {
    // failing reads between the tokens, sometimes at any place
    let anywhere = r.chance(1, 6);
    let mut at = Vec::new();
    for _ in 0..r.range(1, 4) {
      let c: Vec<usize> = cuts.iter().copied().filter(|c| *c <= doc.len()).collect();
      at.push(if anywhere { r.below(doc.len() + 1) } else { *r.pick(&c) });
    }
    at.sort_unstable();
    steps.clear();
    let mut from = 0;
    for a in at {
      let mut bytes: usize = doc[from..a].iter().map(|c| len_of(*c)).sum();
      while bytes > 0 {
        let k = match r.below(3) {
          0 => 1,
          1 => bytes,
          _ => r.range(1, bytes),
        };
        let k = k.min(1000);
        if r.chance(1, 8) {
          steps.push(Step::Eintr);
        }
        steps.push(Step::Give(k));
        bytes -= k;
      }
      for _ in 0..r.range(1, 2) {
        steps.push(Step::Fail(r.below(simcore::feed::KINDS as usize) as u8));
      }
      from = a;
    }
    tail = *r.pick(&[0, 1, 3]);
  }
  let corrupt = if hard && r.chance(1, 5) { gen_corrupt(r, total) } else { Vec::new() };
  Plan {
    def: d,
    copy: r.below(2),
    stream: [Stream::Sim, Stream::Sim, Stream::Memory, Stream::Minimal, Stream::File][r.below(if scale > 0 { 4 } else { 5 })],
    doc,
    corrupt,
    steps,
    tail,
    repeat: r.below(3),
    on_disk: scale == 0 && r.chance(1, 4),
  }
}

const REAL: &[&str] = &[
  "code generated by laps_macros (derive Tokenize) for every definition, built by the real macro with laps_regex",
  "laps::lexer::Lexer, laps::reader (Reader, ByteReader), laps::input, laps::span",
];
const STUB: &[&str] = &["the source behind Read, files, the standard error, getrandom (also in the process of the macro)"];
const RULE: &str = "one run = one lexer definition (hand-written or random, each expanded twice: serially and in parallel), one document made of texts that follow the definition and noise, one delivery trace with short and interrupted reads, failing reads and corruptions (L02), and calls of the lexer up to the third end of input; non-trivial = a token of more than one symbol, an error or a failure occurred";

pub fn props() -> Vec<Prop> {
  vec![
    Prop::new("L01", 400_000, 40_000_000, |r, d| gen(r, d, false), run)
      .rule(RULE)
      .real(REAL)
      .stub(STUB)
      .assumptions(&["no token of a definition matches the empty text"]),
    Prop::new("L02", 400_000, 40_000_000, |r, d| gen(r, d, true), run)
      .rule(RULE)
      .real(REAL)
      .stub(STUB)
      .assumptions(&["no token of a definition matches the empty text", "after a read has failed inside of a token only the failure itself is checked"]),
  ]
}
