//! E03: sources without end.

mod alloc;
#[path = "../../shared/diag.rs"]
mod diag;
mod kinds;
mod source;

use alloc::laps;
use kinds::{Tok, K};
use laps::ast::OptSepSeq;
use laps::input::InputStream;
use laps::lexer::Lexer;
use laps::log_warning;
use laps::prelude::*;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Result as LResult, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use serde::{Deserialize, Serialize};
use simcore::model::{advance, Loc};
use simcore::{ensure, os, Ctx, Prop, Rng, Viol};
use source::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  Next,
  /// Like `Next`, but not put back.
  Take,
  Peek,
  /// Peeks two, or a character with its span.
  Peek2,
  PeekN(usize),
  Skip(u8),
  Collect(u8),
  Unread,
  Look(usize),
  Expect,
  Numbers,
  /// Parses numbers that are separated by semicolons.
  List,
  Statement,
  Warn,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  /// Characters, bytes, a lexer, or a token buffer.
  level: u8,
  pieces: Vec<Piece>,
  total: usize,
  chunks: Vec<usize>,
  ops: Vec<Op>,
}

/// Number of steps of a run.
const BUDGET: isize = 1_000_000;

impl Op {
  fn cost(&self) -> isize {
    match self {
      Op::PeekN(n) | Op::Look(n) => 3 + *n as isize,
      _ => 3,
    }
  }
}

/// Bytes that may be held besides of a text or the tokens that were peeked.
const ROOM: isize = 128 << 10;
const STACK: usize = 256 << 10;

struct Check<'a> {
  source: Rc<RefCell<Source>>,
  base: Span,
  errors: usize,
  warnings: usize,
  before: isize,
  /// The largest text, tokens that are peeked.
  extra: isize,
  most: isize,
  deepest: usize,
  ops: u64,
  ctx: &'a mut Ctx,
}

impl Check<'_> {
  /// Called after each operation, when its results are gone.
  fn done(&mut self, op: &Op, reported: usize, warned: usize) -> Result<(), Viol> {
    self.ops += 1;
    self.errors += reported;
    self.warnings += warned;
    let n = self.ops;
    let text = diag::take();
    ensure!(
      text.is_empty() == (reported + warned == 0),
      "report",
      "operation {n} {op:?}: printed {text:?}, expected {reported} errors and {warned} warnings"
    );
    drop(text);
    ensure!(
      self.base.error_num() == self.errors && self.base.warning_num() == self.warnings,
      "count",
      "operation {n} {op:?}: {} errors and {} warnings, expected {} and {}",
      self.base.error_num(),
      self.base.warning_num(),
      self.errors,
      self.warnings
    );
    // results of collecting are as long as they are
    let held = match (op, alloc::peak()) {
      (Op::Collect(_) | Op::Numbers | Op::List, _) => alloc::live(),
      (_, peak) => peak,
    } - self.before;
    self.most = self.most.max(held);
    let s = self.source.borrow();
    ensure!(
      held <= ROOM + self.extra,
      "memory",
      "operation {n} {op:?}: more than {} KiB are held after {} KiB were read",
      (ROOM + self.extra) >> 10,
      s.delivered >> 10
    );
    let deep = alloc::stack();
    self.deepest = self.deepest.max(deep);
    ensure!(
      deep <= STACK,
      "stack",
      "operation {n} {op:?}: more than {} KiB of the stack are used after {} KiB were read",
      STACK >> 10,
      s.delivered >> 10
    );
    Ok(())
  }

  fn same<T: PartialEq + std::fmt::Debug>(&mut self, op: &Op, got: T, want: T) -> Result<(), Viol> {
    let n = self.ops + 1;
    let same = got == want;
    if !same || self.ctx.trace.is_some() || n < 40 {
      self.ctx.log(|| format!("{op:?} -> {got:?}"));
    } else {
      self.ctx.event(n);
    }
    ensure!(same, "mismatch", "operation {n} {op:?}: got {got:?}, expected {want:?}");
    Ok(())
  }
}

fn loc(s: &Span) -> Loc {
  (s.start().line, s.start().col)
}

/// The characters of a reader, and their model.
struct Chars<'a, 'b> {
  c: &'a mut Check<'b>,
  front: VecDeque<Item>,
  at: Loc,
}

impl Chars<'_, '_> {
  fn pull(&mut self) -> Item {
    if let Some(i) = self.front.pop_front() {
      return i;
    }
    loop {
      let mut s = self.c.source.borrow_mut();
      if let Some(i) = s.items.pop_front() {
        return i;
      }
      if !s.grow() {
        return Item::End;
      }
    }
  }

  /// Failures and ends are seen once.
  fn peek(&mut self) -> Item {
    let i = self.pull();
    if let Item::Char(_) = i {
      self.front.push_front(i);
    }
    i
  }

  /// Takes characters up to one that satisfies the condition.
  fn until(&mut self, stop: char) -> Result<String, ()> {
    let mut s = String::new();
    loop {
      match self.peek() {
        Item::Char(c) if c != stop => {
          self.pull();
          self.at = advance(self.at, c as u32);
          s.push(c);
        }
        Item::Fail => return Err(()),
        _ => return Ok(s),
      }
    }
  }
}

trait Sym: Copy + 'static {
  fn get(self) -> char;
}

impl Sym for char {
  fn get(self) -> char {
    self
  }
}

impl Sym for u8 {
  fn get(self) -> char {
    self as char
  }
}

fn chars<I>(mut r: I, plan: &Plan, c: &mut Check) -> Result<(), Viol>
where
  I: InputStream,
  I::CharType: Sym,
{
  let mut m = Chars { c, front: VecDeque::new(), at: (1, 0) };
  let mut last: Option<(Option<I::CharType>, laps::span::Location)> = None;
  let mut ended = 0;
  let mut budget = BUDGET;
  // something is taken in each round
  for op in plan.ops.iter().chain([&Op::Take]).cycle() {
    budget -= op.cost();
    if budget <= 0 {
      break;
    }
    let mut failed = false;
    let stop = |k: &u8| [';', '\n', ' ', '+', 'a', '0'][*k as usize % 6];
    match op {
      Op::Peek => {
        let got = laps(|| r.peek());
        let want = m.peek();
        failed = want == Item::Fail;
        last = None;
        m.c.same(op, got.map(|c| c.map(Sym::get)).map_err(|_| ()), as_read(want))?;
      }
      Op::Peek2 | Op::PeekN(_) | Op::Look(_) => {
        let got = laps(|| r.peek_with_span());
        let want = m.peek();
        failed = want == Item::Fail;
        last = None;
        let at = match want {
          Item::Char(c) => advance(m.at, c as u32),
          _ => m.at,
        };
        let got = got.map(|(c, s)| (c.map(Sym::get), loc(&s))).map_err(|_| ());
        m.c.same(op, got, as_read(want).map(|c| (c, at)))?;
      }
      Op::Skip(k) => {
        let k = stop(k);
        let got = laps(|| r.skip_until(|c| alloc::called(|| c.get() == k)));
        let want = m.until(k).map(|_| ());
        failed = want.is_err();
        last = None;
        m.c.same(op, got.map_err(|_| ()), want)?;
      }
      Op::Collect(k) => {
        let k = stop(k);
        let got = laps(|| r.collect_until(|c| alloc::called(|| c.get() == k)));
        let want = m.until(k);
        failed = want.is_err();
        last = None;
        let got = got.map(|v| v.into_iter().map(Sym::get).collect::<String>()).map_err(|_| ());
        m.c.same(op, got, want)?;
      }
      Op::Unread => {
        if let Some(l) = last.take() {
          laps(|| r.unread(l));
          m.at = (l.1.line, l.1.col);
          if let Some(c) = l.0 {
            m.front.push_front(Item::Char(c.get()));
          }
        }
      }
      _ => {
        let got = laps(|| r.next_char_loc());
        let want = m.pull();
        failed = want == Item::Fail;
        let before = m.at;
        if let Item::Char(c) = want {
          m.at = advance(m.at, c as u32);
        }
        last = got.as_ref().ok().copied().filter(|_| !matches!(op, Op::Take));
        let got = got.map(|(c, l)| (c.map(Sym::get), (l.line, l.col))).map_err(|_| ());
        m.c.same(op, got, as_read(want).map(|c| (c, before)))?;
      }
    }
    let (got, want) = (loc(r.span()), m.at);
    m.c.same(op, got, want)?;
    m.c.done(op, failed as usize, 0)?;
    // until the source has ended
    let s = m.c.source.borrow();
    let over = m.front.is_empty() && s.items.is_empty() && { s.exhausted() };
    drop(s);
    if over {
      ended += 1;
      if ended > 2 * plan.ops.len() {
        break;
      }
    }
  }
  Ok(())
}

fn as_read(i: Item) -> Result<Option<char>, ()> {
  match i {
    Item::Char(c) => Ok(Some(c)),
    Item::Fail => Err(()),
    Item::End => Ok(None),
  }
}

/// The model of a token.
type MTok = (K, Loc, Loc);

/// The tokens and their model.
struct Tokens<'a, 'b> {
  c: &'a mut Check<'b>,
  front: VecDeque<MTok>,
  /// Errors that were reported during the operation.
  reports: usize,
}

impl Tokens<'_, '_> {
  fn pull(&mut self) -> Result<MTok, bool> {
    if let Some(t) = self.front.pop_front() {
      return Ok(t);
    }
    loop {
      let mut s = self.c.source.borrow_mut();
      match s.events.pop_front() {
        Some(Event::Tok(k, a, b)) => return Ok((k, a, b)),
        Some(Event::Err(f)) => {
          self.reports += 1;
          return Err(f);
        }
        None => {
          if !s.grow() {
            let at = s.loc;
            return Ok((K::End, at, at));
          }
        }
      }
    }
  }

  fn peek(&mut self) -> Result<MTok, bool> {
    let t = self.pull()?;
    self.front.push_front(t.clone());
    Ok(t)
  }

  fn fill(&mut self, n: usize) -> Result<(), bool> {
    while self.front.len() < n {
      let mut rest = std::mem::take(&mut self.front);
      let t = self.pull();
      match t {
        Ok(t) => rest.push_back(t),
        Err(f) => {
          self.front = rest;
          return Err(f);
        }
      }
      self.front = rest;
    }
    Ok(())
  }

  fn peek_n(&mut self, n: usize) -> Result<Vec<MTok>, bool> {
    self.fill(n)?;
    Ok(self.front.iter().take(n).cloned().collect())
  }

  fn until(&mut self, kind: &K) -> Result<Vec<MTok>, bool> {
    let mut v = Vec::new();
    loop {
      let t = self.peek()?;
      if t.0 == K::End || std::mem::discriminant(&t.0) == std::mem::discriminant(kind) {
        return Ok(v);
      }
      v.push(self.pull()?);
    }
  }
}

fn tok(t: &Token<K>) -> MTok {
  let s = &t.span;
  (t.kind.clone(), (s.start().line, s.start().col), (s.end().line, s.end().col))
}

fn one(r: LResult<Token<K>>) -> Result<MTok, bool> {
  r.map(|t| tok(&t)).map_err(|e| diag::is_fatal(&e))
}

fn many(r: LResult<Vec<Token<K>>>) -> Result<Vec<MTok>, bool> {
  r.map(|v| v.iter().map(tok).collect()).map_err(|e| diag::is_fatal(&e))
}

type Lex = Lexer<Reader<Reading>, K>;

/// A statement: a word, perhaps a number, a semicolon.
type Statement = (Tok![word], Option<Tok![num]>, Tok![;]);

enum Stage {
  Lexer(Lex),
  Buffer(TokenBuffer<Lex, Token<K>>),
}

fn tokens(mut stage: Stage, plan: &Plan, c: &mut Check) -> Result<(), Viol> {
  let mut m = Tokens { c, front: VecDeque::new(), reports: 0 };
  let mut last: Option<Token<K>> = None;
  let mut ended = 0;
  let mut budget = BUDGET;
  // something is taken in each round
  for op in plan.ops.iter().chain([&Op::Take]).cycle() {
    budget -= op.cost();
    if budget <= 0 {
      break;
    }
    m.reports = 0;
    let mut warned = 0;
    let mut next = None;
    let kind = |k: &u8| [K::Semi, K::Plus, K::Num(0), K::Word(String::new())][*k as usize % 4].clone();
    let is = |k: &K, t: &K| *t == K::End || std::mem::discriminant(k) == std::mem::discriminant(t);
    match (&mut stage, op) {
      (_, Op::Warn) => {
        if let Some(t) = &last {
          laps(|| log_warning!(t.span, "seen {t}"));
          warned = 1;
        }
      }
      (Stage::Lexer(l), _) => {
        let got = laps(|| l.next_token());
        let want = m.pull();
        next = got.as_ref().ok().cloned();
        m.c.same(op, one(got), want)?;
      }
      (Stage::Buffer(b), Op::Next | Op::Take) => {
        let got = laps(|| b.next_token());
        let want = m.pull();
        next = got.as_ref().ok().cloned();
        m.c.same(op, one(got), want)?;
      }
      (Stage::Buffer(b), Op::Peek) => {
        let got = laps(|| b.peek());
        let want = m.peek();
        m.c.same(op, one(got), want)?;
      }
      (Stage::Buffer(b), Op::Peek2) => {
        let got = laps(|| b.peek2().map(|(a, b)| vec![a, b]));
        let want = m.peek_n(2);
        m.c.same(op, many(got), want)?;
      }
      (Stage::Buffer(b), Op::PeekN(n)) => {
        let got = laps(|| b.peek_n(*n));
        let want = m.peek_n(*n);
        m.c.same(op, many(got), want)?;
      }
      (Stage::Buffer(b), Op::Skip(k)) => {
        let k = kind(k);
        let got = laps(|| b.skip_until(|t| alloc::called(|| is(&k, &t.kind))));
        let want = m.until(&k).map(|_| ());
        m.c.same(op, got.map_err(|e| diag::is_fatal(&e)), want)?;
      }
      (Stage::Buffer(b), Op::Collect(k)) => {
        let k = kind(k);
        let got = laps(|| b.collect_until(|t| alloc::called(|| is(&k, &t.kind))));
        let want = m.until(&k);
        m.c.same(op, many(got), want)?;
      }
      (Stage::Buffer(b), Op::Unread) => {
        if let Some(t) = last.take() {
          m.front.push_front(tok(&t));
          laps(|| b.unread(t));
        }
      }
      (Stage::Buffer(b), Op::Look(n)) => {
        let got = laps(|| {
          let mut l = b.lookahead();
          (0..*n).map(|_| l.peek_next()).collect::<LResult<Vec<_>>>()
        });
        let want = m.peek_n(*n);
        m.c.same(op, many(got), want)?;
      }
      (Stage::Buffer(b), Op::Expect) => {
        let got = laps(|| b.expect(K::Semi));
        let want = match m.pull() {
          Ok(t) if t.0 == K::Semi => Ok(t),
          Ok(t) => {
            m.front.push_front(t);
            m.reports += 1;
            Err(false)
          }
          Err(f) => Err(f),
        };
        m.c.same(op, one(got), want)?;
      }
      (Stage::Buffer(b), Op::Numbers) => {
        let got = laps(|| b.parse::<Vec<Tok![num]>>());
        let mut v = Vec::new();
        let want = loop {
          match m.peek() {
            Ok((K::Num(_), ..)) => v.push(m.pull().unwrap()),
            Ok(_) => break Ok(v),
            Err(f) => break Err(f),
          }
        };
        m.c.same(op, many(got.map(|v| v.into_iter().map(|t| t.0).collect())), want)?;
      }
      (Stage::Buffer(b), Op::List) => {
        let got = laps(|| b.parse::<OptSepSeq<Tok![num], Tok![;]>>());
        let mut v = Vec::new();
        let want = loop {
          match m.peek() {
            Ok((K::Num(_), ..)) => v.push(m.pull().unwrap()),
            Ok(_) => break Ok(v),
            Err(f) => break Err(f),
          }
          match m.peek() {
            Ok((K::Semi, ..)) => _ = m.pull(),
            Ok(_) => break Ok(v),
            Err(f) => break Err(f),
          }
        };
        m.c.same(op, many(got.map(|v| v.into_iter().map(|t| t.0).collect())), want)?;
      }
      (Stage::Buffer(b), Op::Statement) => {
        let got = laps(|| b.parse::<Statement>());
        let want = statement(&mut m);
        let got = got.map(|(w, n, s)| {
          let mut v = vec![w.0];
          v.extend(n.map(|n| n.0));
          v.push(s.0);
          v
        });
        m.c.same(op, many(got), want)?;
      }
    }
    match op {
      Op::Take => last = None,
      _ => last = next.or(last),
    }
    let reports = m.reports;
    m.c.done(op, reports, warned)?;
    let s = m.c.source.borrow();
    let over = m.front.iter().all(|t| t.0 == K::End) && s.events.is_empty() && s.exhausted();
    drop(s);
    if over {
      ended += 1;
      if ended > 2 * plan.ops.len() {
        break;
      }
    }
  }
  Ok(())
}

fn statement(m: &mut Tokens) -> Result<Vec<MTok>, bool> {
  let w = m.pull()?;
  if !matches!(w.0, K::Word(_)) {
    m.reports += 1;
    return Err(false);
  }
  let mut v = vec![w];
  if let K::Num(_) = m.peek()?.0 {
    v.push(m.pull()?);
  }
  let s = m.pull()?;
  if s.0 != K::Semi {
    m.front.push_front(s);
    m.reports += 1;
    return Err(false);
  }
  v.push(s);
  Ok(v)
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  os::init();
  let mut plan = plan.clone();
  if plan.chunks.iter().all(|c| *c == 0) {
    plan.chunks.clear();
  }
  ctx.nontrivial = plan.total >= 1000 && !plan.pieces.is_empty();
  let source = Source::new(&plan.pieces, plan.total, &plan.chunks, plan.level);
  let longest = plan.pieces.iter().map(|p| p.0.size()).max().unwrap_or(0);
  let peeked = plan.ops.iter().map(|o| match o {
    Op::PeekN(n) | Op::Look(n) => *n,
    _ => 2,
  });
  let before = alloc::live();
  let reading = Reading(source.clone());
  let mut c = Check {
    source: source.clone(),
    base: Span::new(FileType::Buffer),
    errors: 0,
    warnings: 0,
    before,
    extra: (16 * longest * (4 + peeked.max().unwrap_or(0))) as isize,
    most: 0,
    deepest: 0,
    ops: 0,
    ctx,
  };
  alloc::stack();
  alloc::peak();
  let result = match plan.level {
    0 => {
      let r = laps(|| Reader::<_>::new(reading, FileType::Buffer));
      c.base = r.span().clone();
      chars(r, &plan, &mut c)
    }
    1 => {
      let r = laps(|| ByteReader::<_>::new(reading, FileType::Buffer));
      c.base = r.span().clone();
      chars(r, &plan, &mut c)
    }
    level => {
      let r = laps(|| Reader::<_>::new(reading, FileType::Buffer));
      c.base = r.span().clone();
      let l = laps(|| K::lexer(r));
      let stage = match level {
        2 => Stage::Lexer(l),
        _ => Stage::Buffer(laps(|| TokenBuffer::new(l))),
      };
      tokens(stage, &plan, &mut c)
    }
  };
  let (ops, most, deepest) = (c.ops, c.most, c.deepest);
  ctx.count("sim.operations", ops);
  ctx.count(if most < 16 << 10 { "probe.held_16k" } else if most < 48 << 10 { "probe.held_48k" } else { "probe.held_more" }, 1);
  ctx.count(if deepest < 8 << 10 { "probe.stack_8k" } else { "probe.stack_more" }, 1);
  let s = source.borrow();
  ctx.count("sim.reads", s.calls);
  ctx.count("sim.kilobytes", s.delivered >> 10);
  ctx.count("fault.EINTR", s.interrupts);
  ctx.count("fault.EIO", s.fails);
  ctx.count("fault.transient_eof", s.ends);
  result
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let level = r.weighted(&[2, 1, 2, 5]) as u8;
  let w = [
    [6, 4, 4, 1, 3, 2, 2, 1, 1],
    [1, 1, 10, 4, 1, 1, 10, 0, 0],
    [3, 8, 2, 1, 1, 3, 0, 4, 4],
    [0, 0, 1, 1, 0, 0, 1, 0, 0],
    [4, 1, 0, 1, 4, 0, 0, 0, 0],
    [0, 6, 1, 0, 6, 1, 0, 0, 0],
  ][r.below(6)];
  let cuts = [0, 0, 1, 6][r.below(4)];
  let most = if r.chance(1, 3) { 4 } else { 60 };
  let n = r.range(1, most);
  let long = r.chance(1, 12);
  let size = |r: &mut Rng| match r.below(40) {
    0 if long => r.range(100, 3000),
    0..=2 => r.range(1, 200),
    _ => r.range(1, 8),
  };
  let pieces: Vec<_> = (0..n)
    .map(|_| {
      let text = match r.weighted(&w) {
        0 => Text::Word(size(r)),
        1 => Text::Num(r.below(1000) as u64),
        2 => Text::Blanks(size(r)),
        3 => Text::Lines(size(r)),
        4 => Text::Semi,
        5 => Text::Plus,
        6 => Text::Comment(size(r)),
        7 => Text::Bad,
        _ => Text::Huge(size(r)),
      };
      let cut = match r.below(40) < cuts {
        true if r.chance(1, 2) => Cut::Fail,
        true => Cut::End,
        false => Cut::No,
      };
      Piece(text, cut)
    })
    .collect();
  let total = match r.below(10) {
    0..=5 => r.range(100, 6_000),
    6..=8 => r.range(10_000, 40_000),
    _ => r.range(70_000, if deep { 600_000 } else { 120_000 }),
  };
  // not too many characters
  let sum: usize = pieces.iter().map(|p: &Piece| p.0.length()).sum();
  let total = total.min((if deep { 6_000_000 } else { 1_200_000 }) * pieces.len() / sum);
  let chunks = match r.below(4) {
    0 => vec![],
    1 => vec![1],
    _ => (0..r.range(1, 30)).map(|_| if r.chance(1, 8) { 0 } else { r.range(1, 1200) }).collect(),
  };
  let w = [
    [6, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1],
    [1, 1, 1, 1, 4, 2, 0, 1, 1, 1, 1, 0, 0],
    [2, 0, 0, 0, 2, 0, 0, 0, 1, 4, 4, 8, 0],
    [8, 4, 2, 0, 0, 0, 4, 4, 0, 0, 0, 0, 2],
    [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
  ][r.below(5)];
  let ops = (0..r.range(1, 30))
    .map(|_| match r.weighted(&w) {
      0 => Op::Next,
      1 => Op::Peek,
      2 => Op::Peek2,
      3 => Op::PeekN(r.below(40)),
      4 => Op::Skip(r.below(6) as u8),
      5 => Op::Collect(r.below(6) as u8),
      6 => Op::Unread,
      7 => Op::Look(r.below(20)),
      8 => Op::Expect,
      9 => Op::Numbers,
      10 => Op::List,
      11 => Op::Statement,
      _ => Op::Warn,
    })
    .collect();
  Plan {
    level,
    pieces,
    total,
    chunks,
    ops,
  }
}

fn main() {
  simcore::main_with(vec![Prop::new("E03", 2_500, 400_000, gen, run)
    .rule("one run = one source that repeats a list of texts with failing reads and temporary ends up to 120 000 times (600 000 with the thorough tier), read through a reader of characters or bytes, a derived lexer, or a token buffer with parsers, by a repeated list of operations; all results, locations and counts are compared, and the memory that laps holds and the depth of its stack are measured; non-trivial = at least 1000 texts")
    .real(&[
      "laps: reader, byte reader, input, derived lexer, token buffer, lookahead, parsers (vector, tuple, option, token_ast), reports",
      "laps_macros and laps_regex (expansion of the lexer)",
    ])
    .stub(&["the source behind Read", "the allocator (counts, then calls that of the system)", "the standard error"])
    .assumptions(&[
      "results of collecting, and of parsing sequences, are as long as what was collected or parsed",
    ])])
}
