//! D05: histories of spans.

use crate::diag;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, LocationUpdate, Span, Spanned, TrySpan};
use laps::token::Token;
use laps::{
  log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning,
};
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::os::{self, WStep};
use simcore::{ensure, Ctx, Feed, Prop, Rng, SimRead, Viol};
use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

/// A character, of all types that update locations.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Ch {
  Char(char),
  Byte(u8),
  /// This many columns to the right.
  Wide(u32),
  /// This many lines down.
  Feed(u32),
}

struct Custom(Ch);

impl LocationUpdate for Custom {
  fn update(&self, loc: &mut Location) {
    match self.0 {
      Ch::Wide(n) => loc.col += n,
      Ch::Feed(n) => *loc = Location { line: loc.line + n, col: 1 },
      _ => unreachable!(),
    }
  }
}

/// A structure of spans, leaves are spans of the pool.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
  Leaf(usize),
  Token(usize),
  Boxed(Box<Shape>),
  Tuple(Vec<Shape>),
  Nothing,
  Some(Box<Shape>),
  List(Vec<Shape>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  New(u8),
  /// Starts a reader of characters or bytes.
  Open(u8, bool, Source),
  Next(usize),
  Peek(usize),
  Line(usize, u32, u32),
  Close(usize),
  Clone(usize),
  Drop(usize),
  Update(usize, Ch),
  IntoUpdated(usize, Ch),
  UpdateLoc(usize, u32, u32),
  UpdateEnd(usize, usize, bool),
  IntoEndUpdated(usize, usize, bool),
  Compare(usize, usize),
  Shape(Shape),
  Log(usize, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  ops: Vec<Op>,
  wsteps: Vec<WStep>,
}

struct S(Box<dyn Spanned>);

impl Spanned for S {
  fn span(&self) -> Span {
    self.0.span()
  }
}

struct T(Box<dyn TrySpan>);

impl TrySpan for T {
  fn try_span(&self) -> Option<Span> {
    self.0.try_span()
  }
}

/// What has no span of its own is passed over by tuples.
struct Mute;

struct Leaf(Span);

impl Spanned for Leaf {
  fn span(&self) -> Span {
    self.0.clone()
  }
}

/// The structure if it always has a span.
fn spanned(s: &Shape, pool: &[Span]) -> Option<S> {
  let at = |i: &usize| pool[i % pool.len()].clone();
  Some(S(match s {
    Shape::Leaf(i) => Box::new(Leaf(at(i))),
    Shape::Token(i) => Box::new(Token::<u8>::new(1, at(i))),
    Shape::Boxed(s) => Box::new(Box::new(spanned(s, pool)?)),
    Shape::Tuple(v) => {
      let first = spanned(v.first()?, pool)?;
      let last = spanned(v.last()?, pool)?;
      let mut parts = v.iter().skip(1).take(v.len().saturating_sub(2)).map(|s| spanned(s, pool));
      match v.len() {
        1 => Box::new((first,)),
        2 => Box::new((first, last)),
        3 => Box::new((first, parts.next()??, last)),
        4 => Box::new((first, parts.next()??, Mute, last)),
        5 => Box::new((first, Mute, parts.next()??, 7, last)),
        6 => Box::new((first, 1, 2, 3, 4, last)),
        7 => Box::new((first, 1, 2, 3, 4, 5, last)),
        8 => Box::new((first, 1, 2, 3, 4, 5, 6, last)),
        9 => Box::new((first, 1, 2, 3, 4, 5, 6, 7, last)),
        10 => Box::new((first, 1, 2, 3, 4, 5, 6, 7, 8, last)),
        11 => Box::new((first, 1, 2, 3, 4, 5, 6, 7, 8, 9, last)),
        12 => Box::new((first, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, last)),
        _ => Box::new((first, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, last)),
      }
    }
    _ => return None,
  }))
}

fn real_span(s: &Shape, pool: &[Span]) -> T {
  if let Some(s) = spanned(s, pool) {
    return T(Box::new(s));
  }
  T(match s {
    Shape::Nothing => Box::new(None::<T>),
    Shape::Some(s) => Box::new(Some(real_span(s, pool))),
    Shape::List(v) => Box::new(v.iter().map(|s| real_span(s, pool)).collect::<Vec<_>>()),
    // these only have a span if all parts have one
    _ => Box::new(None::<T>),
  })
}

/// A span of the model.
#[derive(Clone, Copy, Debug, PartialEq)]
struct M {
  input: usize,
  start: Loc,
  end: Loc,
}

fn total(s: &Shape) -> bool {
  match s {
    Shape::Leaf(_) | Shape::Token(_) => true,
    Shape::Boxed(s) => total(s),
    Shape::Tuple(v) => {
      let inner = match v.len() {
        3 | 4 => v[1..2].iter().all(total),
        5 => total(&v[1]),
        _ => true,
      };
      !v.is_empty() && total(&v[0]) && total(&v[v.len() - 1]) && inner
    }
    _ => false,
  }
}

fn model_span(s: &Shape, pool: &[M]) -> Option<M> {
  let join = |a: M, b: M| M { end: b.end, ..a };
  match s {
    Shape::Leaf(i) | Shape::Token(i) => Some(pool[i % pool.len()]),
    Shape::Boxed(_) | Shape::Tuple(_) if !total(s) => None,
    Shape::Boxed(s) => model_span(s, pool),
    Shape::Tuple(v) => Some(join(model_span(&v[0], pool)?, model_span(&v[v.len() - 1], pool)?)),
    Shape::Nothing => None,
    Shape::Some(s) => model_span(s, pool),
    Shape::List(v) => {
      let all: Vec<M> = v.iter().filter_map(|s| model_span(s, pool)).collect();
      Some(join(*all.first()?, *all.last()?))
    }
  }
}

fn step(l: Loc, c: Ch) -> Loc {
  match c {
    Ch::Char(c) => advance(l, c as u32),
    Ch::Byte(b) => advance(l, b as u32),
    Ch::Wide(n) => (l.0, l.1 + n),
    Ch::Feed(n) => (l.0 + n, 1),
  }
}

enum In {
  Chars(Reader<SimRead>),
  Bytes(ByteReader<SimRead>),
}

struct Open {
  input: In,
  model: CharModel,
  feed: Rc<RefCell<Feed>>,
  /// Its number.
  id: usize,
}

fn file_type(k: u8) -> FileType {
  match k % 4 {
    0 => FileType::Buffer,
    1 => FileType::Stdin,
    2 => FileType::File(Path::new("/simfs/a").into()),
    _ => FileType::File(Path::new("/simfs/b c\u{e9}").into()),
  }
}

fn name_of(k: u8) -> &'static str {
  ["<buffer>", "<stdin>", "/simfs/a", "/simfs/b c\u{e9}"][k as usize % 4]
}

fn show(m: &M) -> String {
  format!("{}:{}-{}:{}", m.start.0, m.start.1, m.end.0, m.end.1)
}

const MAX: usize = 12;

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  os::with(|o| o.wsteps = plan.wsteps.clone());
  let mut pool: Vec<Span> = Vec::new();
  let mut model: Vec<M> = Vec::new();
  // type, errors and warnings of all inputs
  let mut inputs: Vec<(u8, usize, usize)> = Vec::new();
  let mut open: Vec<Open> = Vec::new();
  for (n, op) in plan.ops.iter().enumerate() {
    let first_op = (1, 0);
    let idle = match op {
      Op::New(_) | Op::Open(..) => false,
      Op::Next(_) | Op::Peek(_) | Op::Line(..) | Op::Close(_) => open.is_empty(),
      _ => pool.is_empty(),
    };
    if idle {
      continue;
    }
    let at = |i: usize| i % pool.len().max(1);
    let mut new: Option<(Span, M)> = None;
    let mut result = String::new();
    match op {
      Op::New(k) => {
        inputs.push((*k, 0, 0));
        let m = M { input: inputs.len() - 1, start: first_op, end: first_op };
        new = Some((Span::new(file_type(*k)), m));
      }
      Op::Open(k, bytes, source) if open.len() < 3 => {
        inputs.push((*k, 0, 0));
        let feed = Rc::new(RefCell::new(source.feed()));
        let sim = SimRead(feed.clone());
        let ft = file_type(*k);
        let input = if *bytes { In::Bytes(ByteReader::new(sim, ft)) } else { In::Chars(Reader::new(sim, ft)) };
        let span = match &input {
          In::Chars(i) => i.span().clone(),
          In::Bytes(i) => i.span().clone(),
        };
        let id = inputs.len() - 1;
        new = Some((span, M { input: id, start: first_op, end: first_op }));
        open.push(Open { input, model: CharModel::new(!bytes), feed, id });
      }
      Op::Open(..) => {}
      Op::Next(k) | Op::Peek(k) => {
        let i = k % open.len();
        let o = &mut open[i];
        let peek = matches!(op, Op::Peek(_));
        let got = match (&mut o.input, peek) {
          (In::Chars(i), false) => i.next_char_span().map(|(_, s)| s),
          (In::Bytes(i), false) => i.next_char_span().map(|(_, s)| s),
          (In::Chars(i), true) => i.peek_with_span().map(|(_, s)| s),
          (In::Bytes(i), true) => i.peek_with_span().map(|(_, s)| s),
        };
        o.model.refresh(&o.feed.borrow());
        let before = o.model.loc;
        let item = if peek { o.model.peek() } else { o.model.take() };
        let loc = match item {
          Some(Item::Char(c)) => Some(advance(before, c)),
          Some(Item::Eof) => Some(before),
          _ => None,
        };
        match (got, loc) {
          (Ok(s), Some(l)) => new = Some((s, M { input: o.id, start: l, end: l })),
          (Err(_), None) => inputs[o.id].1 += 1,
          (g, _) => return Viol::new("read", format!("operation {n} {op:?}: returned {:?}", g.is_ok())),
        }
      }
      Op::Line(k, l, c) => {
        let i = k % open.len();
        let o = &mut open[i];
        match &mut o.input {
          In::Chars(i) => i.set_line_col(*l, *c),
          In::Bytes(i) => i.set_line_col(*l, *c),
        }
        o.model.loc = (*l, *c);
      }
      Op::Close(k) => {
        let o = open.remove(k % open.len());
        ctx.count_feed(&o.feed.borrow());
      }
      Op::Clone(i) => new = Some((pool[at(*i)].clone(), model[at(*i)])),
      Op::Drop(i) => {
        let i = at(*i);
        pool.swap_remove(i);
        model.swap_remove(i);
      }
      Op::Update(i, c) => {
        let i = at(*i);
        match c {
          Ch::Char(c) => pool[i].update(c),
          Ch::Byte(c) => pool[i].update(c),
          c => pool[i].update(&Custom(*c)),
        }
        let l = step(model[i].start, *c);
        model[i].start = l;
        model[i].end = l;
      }
      Op::IntoUpdated(i, c) => {
        let i = at(*i);
        let s = pool[i].clone();
        let s = match c {
          Ch::Char(c) => s.into_updated(c),
          Ch::Byte(c) => s.into_updated(c),
          c => s.into_updated(&Custom(*c)),
        };
        let l = step(model[i].start, *c);
        new = Some((s, M { start: l, end: l, ..model[i] }));
      }
      Op::UpdateLoc(i, l, c) => {
        let i = at(*i);
        pool[i].update_loc(Location { line: *l, col: *c });
        model[i].start = (*l, *c);
        model[i].end = (*l, *c);
      }
      Op::UpdateEnd(i, j, by_ref) => {
        let (i, j) = (at(*i), at(*j));
        let other = pool[j].clone();
        if *by_ref {
          pool[i].update_end(&other);
        } else {
          pool[i].update_end(other);
        }
        model[i].end = model[j].end;
      }
      Op::IntoEndUpdated(i, j, by_ref) => {
        let (i, j) = (at(*i), at(*j));
        let s = pool[i].clone();
        let s = if *by_ref { s.into_end_updated(&pool[j]) } else { s.into_end_updated(pool[j].clone()) };
        new = Some((s, M { end: model[j].end, ..model[i] }));
      }
      Op::Compare(i, j) => {
        let (i, j) = (at(*i), at(*j));
        let got = (pool[i].is_in_same_line_as(&pool[j]), pool[i].is_in_same_line_as(pool[j].clone()));
        let want = model[i].end.0 == model[j].start.0;
        result = format!("{}", got.0);
        ensure!(
          got == (want, want),
          "compare",
          "operation {n} {op:?}: {} and {} are in the same line: {got:?}",
          show(&model[i]),
          show(&model[j])
        );
      }
      Op::Shape(s) => {
        let got = real_span(s, &pool).try_span();
        let want = model_span(s, &model);
        match (got, want) {
          (Some(g), Some(w)) => new = Some((g, w)),
          (None, None) => {}
          (g, w) => return Viol::new("shape", format!("operation {n} {op:?}: got {g:?}, expected {w:?}")),
        }
      }
      Op::Log(i, k) => {
        let i = at(*i);
        let s = &pool[i];
        let input = &mut inputs[model[i].input];
        let ok = match k % 6 {
          0 => !diag::is_fatal(&log_error!(s, "m{n}")),
          1 => diag::is_fatal(&log_fatal_error!(s, "m{n}")),
          2 => !diag::is_fatal(&log_raw_error!(s, "m{n}")),
          3 => diag::is_fatal(&log_raw_fatal_error!(s, "m{n}")),
          4 => {
            log_warning!(s, "m{n}");
            true
          }
          _ => {
            log_raw_warning!(s, "m{n}");
            true
          }
        };
        if k % 6 < 4 {
          input.1 += 1;
        } else {
          input.2 += 1;
        }
        let tag = if k % 6 < 4 { "error" } else { "warning" };
        let text = diag::take();
        let want = match k % 6 {
          4 | 5 if !diag::LOGGER => String::new(),
          0 | 1 | 4 => format!("{tag}: m{n}\n  at {}:{}:{}\n\n", name_of(input.0), model[i].start.0, model[i].start.1),
          _ => format!("{tag}: m{n}\n"),
        };
        ensure!(ok && text == want, "report", "operation {n} {op:?}: printed {text:?}, expected {want:?}");
        ctx.count("probe.report", 1);
      }
    }
    if let Some((s, m)) = new {
      result = format!("{s}");
      if pool.len() < MAX {
        pool.push(s);
        model.push(m);
      } else {
        let i = n % MAX;
        pool[i] = s;
        model[i] = m;
      }
    }
    ctx.log(|| format!("{op:?} -> {result}"));
    os::take_stderr();
    // nothing else has changed
    for (i, (s, m)) in pool.iter().zip(&model).enumerate() {
      let (k, e, w) = inputs[m.input];
      let got = M {
        input: m.input,
        start: (s.start().line, s.start().col),
        end: (s.end().line, s.end().col),
      };
      ensure!(got == *m, "location", "operation {n} {op:?}: span {i} is {s}, expected {}", show(m));
      // one after the other, they are slow
      let shown = i == n % pool.len() || i + 1 == pool.len();
      ensure!(
        !shown || format!("{s}") == show(m) && format!("{s:?}") == format!("Span({})", show(m)) && format!("{}", s.file_type()) == name_of(k),
        "display",
        "operation {n} {op:?}: span {i} is displayed as {s}, {s:?} of {}, expected {} of {}",
        s.file_type(),
        show(m),
        name_of(k)
      );
      ensure!(
        (s.error_num(), s.warning_num()) == (e, w),
        "count",
        "operation {n} {op:?}: span {i} counts {} errors and {} warnings, expected {e} and {w}",
        s.error_num(),
        s.warning_num()
      );
      let j = (i + n) % pool.len();
      ensure!(
        (s == &pool[j], &pool[j] == s) == (*m == model[j], *m == model[j]),
        "equal",
        "operation {n} {op:?}: spans {i} and {j} are equal: {}, expected {}",
        s == &pool[j],
        *m == model[j]
      );
      ctx.count("probe.equal", (i != j && *m == model[j]) as u64);
    }
    for o in &open {
      let s = match &o.input {
        In::Chars(i) => i.span(),
        In::Bytes(i) => i.span(),
      };
      let (l, (_, e, w)) = (o.model.loc, inputs[o.id]);
      ensure!(
        (s.start().line, s.start().col) == l && s.start() == s.end() && (s.error_num(), s.warning_num()) == (e, w),
        "input",
        "operation {n} {op:?}: the input is at {s} with {} errors and {} warnings, expected {l:?}, {e} and {w}",
        s.error_num(),
        s.warning_num()
      );
    }
  }
  ctx.nontrivial = model.iter().any(|m| m.input > 0) && model.len() > 2;
  let (sw, ew) = os::with(|o| (o.short_writes, o.eintr_writes));
  ctx.count("fault.short_write", sw);
  ctx.count("fault.EINTR_write", ew);
  for o in &open {
    ctx.count_feed(&o.feed.borrow());
  }
  Ok(())
}

fn gen_shape(r: &mut Rng, depth: usize, total: bool) -> Shape {
  let leaf = |r: &mut Rng| if r.chance(1, 3) { Shape::Token(r.below(MAX)) } else { Shape::Leaf(r.below(MAX)) };
  if depth == 0 {
    return if !total && r.chance(1, 3) { Shape::Nothing } else { leaf(r) };
  }
  match r.below(if total { 4 } else { 7 }) {
    0 => leaf(r),
    1 => Shape::Boxed(Box::new(gen_shape(r, depth - 1, true))),
    2 | 3 => {
      let n = if r.chance(1, 4) { r.range(5, 14) } else { r.range(1, 4) };
      Shape::Tuple((0..n).map(|_| gen_shape(r, depth - 1, true)).collect())
    }
    4 => Shape::Some(Box::new(gen_shape(r, depth - 1, false))),
    5 => Shape::Nothing,
    _ => {
      if depth > 1 && r.chance(1, 8) {
        // a long list, most of its parts have no span
        let (n, every) = (r.range(6, 400), r.range(1, 200));
        let at = r.below(every);
        let part = |i: usize| if i % every == at { Shape::Some(Box::new(leaf(r))) } else { Shape::Nothing };
        return Shape::List((0..n).map(part).collect());
      }
      let n = r.below(5);
      Shape::List((0..n).map(|_| gen_shape(r, depth - 1, false)).collect())
    }
  }
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let n = r.range(3, if deep { 60 } else { 24 });
  let mut ops = vec![Op::New(r.below(4) as u8)];
  let faults = r.chance(1, 2);
  while ops.len() < n {
    let i = r.below(MAX);
    let j = r.below(MAX);
    let ch = match r.below(6) {
      0 => Ch::Char('\n'),
      1 => Ch::Byte(b'\n'),
      2 => Ch::Char(*r.pick(&['a', '\u{0}', '\t', '\r', '\u{301}', '\u{4f60}', '\u{1f602}', '\u{85}', '\u{2028}'])),
      3 => Ch::Byte(r.below(256) as u8),
      4 => Ch::Wide(r.below(70_000) as u32),
      _ => Ch::Feed(r.below(5) as u32),
    };
    let (l, c) = match r.below(4) {
      0 => (1, 0),
      1 => (r.below(4) as u32, r.below(4) as u32),
      2 => (r.below(1 << 30) as u32, r.below(1 << 30) as u32),
      _ => (r.below(100) as u32, r.below(100) as u32),
    };
    let flag = r.chance(1, 2);
    ops.push(match r.weighted(&[2, 2, 6, 3, 1, 1, 4, 2, 4, 4, 2, 5, 5, 4, 5, 5]) {
      0 => Op::New(r.below(4) as u8),
      1 => {
        let doc = gen_text(r, 40);
        let f = Faults {
          eintr: true,
          fail: faults,
          eof: faults,
        };
        let (steps, tail) = gen_steps(r, doc.len(), f);
        let corrupt = if faults && r.chance(1, 4) { gen_corrupt(r, doc.len()) } else { Vec::new() };
        Op::Open(r.below(4) as u8, r.chance(1, 3), Source { doc, corrupt, steps, tail })
      }
      2 => Op::Next(i),
      3 => Op::Peek(i),
      4 => Op::Line(i, l, c),
      5 => Op::Close(i),
      6 => Op::Clone(i),
      7 => Op::Drop(i),
      8 => Op::Update(i, ch),
      9 => Op::IntoUpdated(i, ch),
      10 => Op::UpdateLoc(i, l, c),
      11 => Op::UpdateEnd(i, j, flag),
      12 => Op::IntoEndUpdated(i, j, flag),
      13 => Op::Compare(i, j),
      14 => {
        let d = r.range(0, 3);
        Op::Shape(gen_shape(r, d, flag))
      }
      _ => Op::Log(i, r.below(6) as u8),
    });
  }
  Plan {
    ops,
    wsteps: gen_wsteps(r),
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("D05", 300_000, 30_000_000, gen, run)
    .rule("one run = a history of operations on spans of several inputs: spans of readers over faulty sources, copies, updates by characters of several types, extensions, comparisons, structures of spans, reports over a faulty standard error, inputs that are closed while their spans live; after every operation all spans are compared with the model; non-trivial = at least three spans and two inputs")
    .real(&["laps::span (Span, Location, LocationUpdate, Spanned, TrySpan, reports)", "laps::token::Token", "laps::reader and laps::input (inputs of spans)"])
    .stub(&["the sources behind Read", "files (missing), the standard error"])
    .assumptions(&["lines and columns stay below 2^32"])]
}
