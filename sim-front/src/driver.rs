//! E01: a whole front end over simulated sources.

use crate::lang::{show_token, Mark, Item, Show, TokenKind};
use crate::reference::{report, Fail, Parser, K};
use crate::text::program;
use crate::diag;
use laps::input::InputStream;
use laps::lexer::Tokenize;
use laps::log_warning;
use laps::reader::Reader;
use laps::span::{FileType, Location, Result as LResult, Span, Spanned};
use laps::token::{TokenBuffer, TokenStream, Tokenizer};
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::os::{self, Node, WStep};
use simcore::{ensure, Ctx, Feed, Prop, Rng, SimRead, Step, Viol};
use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Stream {
  Memory,
  Sim,
  File,
  Stdin,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  stream: Stream,
  /// The source is the contents of a file, although it is not read as one.
  on_disk: bool,
  text: String,
  corrupt: Vec<Corrupt>,
  steps: Vec<Step>,
  tail: usize,
  /// Writes to the standard error.
  wsteps: Vec<WStep>,
  /// Warns about each item whose bit is set.
  warn: u64,
  /// Collects tokens instead of skipping them.
  collect: bool,
}

const FILE: &str = "/simfs/main.src";

/// All kinds of sources.
enum Input {
  Sim(Reader<SimRead>),
  Mem(Reader<std::io::Cursor<String>>),
  File(Reader<std::fs::File>),
  Stdin(Reader<std::io::Stdin>),
}

macro_rules! each {
  ($self:ident, $i:ident => $e:expr) => {
    match $self {
      Input::Sim($i) => $e,
      Input::Mem($i) => $e,
      Input::File($i) => $e,
      Input::Stdin($i) => $e,
    }
  };
}

impl InputStream for Input {
  type CharType = char;
  fn next_char_loc(&mut self) -> LResult<(Option<char>, Location)> {
    each!(self, i => i.next_char_loc())
  }
  fn unread(&mut self, last: (Option<char>, Location)) {
    each!(self, i => i.unread(last))
  }
  fn span(&self) -> &Span {
    each!(self, i => i.span())
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    each!(self, i => i.set_line_col(line, col))
  }
  fn peek_with_span(&mut self) -> LResult<(Option<char>, Span)> {
    each!(self, i => i.peek_with_span())
  }
}

/// What an operation of the front end did.
#[derive(Debug)]
struct Ev {
  op: &'static str,
  /// The result, or whether the error is fatal.
  res: Result<String, bool>,
  /// What was printed.
  text: String,
  errors: usize,
  warnings: usize,
  /// How often the source was called until then.
  reads: usize,
}

fn is_sync(k: &TokenKind) -> bool {
  matches!(k, TokenKind::Other(Mark(';' | '}')) | TokenKind::Eof)
}

/// The front end of a compiler, until the end of its input.
fn front(input: Input, feed: &RefCell<Feed>, plan: &Plan) -> (Vec<Ev>, Span) {
  let mut ts = TokenBuffer::new(TokenKind::lexer(input));
  let root = ts.inner().input().span().clone();
  let mut evs: Vec<Ev> = Vec::new();
  let mut fatals = 0;
  let mut push = |op, res: LResult<String>| {
    let res = res.map_err(|e| diag::is_fatal(&e));
    fatals = if res == Err(true) { fatals + 1 } else { 0 };
    evs.push(Ev {
      op,
      res,
      text: diag::take(),
      errors: root.error_num(),
      warnings: root.warning_num(),
      reads: feed.borrow().log.len(),
    });
    if evs.len() > 20_000 {
      panic!("livelock: the front end makes no progress");
    }
    // malformed text is reported again and again
    fatals < 12
  };
  let mut items = 0;
  'all: loop {
    let t = ts.peek();
    let eof = matches!(&t, Ok(t) if t.kind == TokenKind::Eof);
    let ok = t.is_ok();
    if !push("peek", t.map(|t| show_token(&t))) || eof {
      break;
    }
    if !ok {
      continue;
    }
    match ts.parse::<Item>() {
      Ok(item) => {
        push("item", Ok(item.show()));
        if plan.warn >> (items % 64) & 1 == 1 {
          log_warning!(item.span(), "item {items}");
          push("warn", Ok(String::new()));
        }
        items += 1;
      }
      Err(e) => {
        if !push("item", Err(e)) {
          break;
        }
        // resume behind the end of the statement
        let t = ts.peek();
        if !push("look", t.map(|t| show_token(&t))) {
          break;
        }
        loop {
          let r = if plan.collect {
            ts.collect_until(|t| is_sync(&t.kind)).map(|v| v.iter().map(show_token).collect::<Vec<_>>().join(" "))
          } else {
            ts.skip_until(|t| is_sync(&t.kind)).map(|_| String::new())
          };
          let ok = r.is_ok();
          if !push("skip", r) {
            break 'all;
          }
          if ok {
            break;
          }
        }
        let t = ts.next_token();
        let eof = match &t {
          Ok(t) if t.kind == TokenKind::Eof => Some(t.clone()),
          _ => None,
        };
        push("sync", t.map(|t| show_token(&t)));
        if let Some(t) = eof {
          ts.unread(t);
        }
      }
    }
  }
  root.log_summary();
  push("summary", Ok(String::new()));
  let at = ts.inner().input().span().clone();
  (evs, at)
}

/// Compares the operations with the reference.
struct Check<'a> {
  evs: &'a [Ev],
  at: usize,
  errors: usize,
  warnings: usize,
  name: &'a str,
  doc: Option<&'a str>,
  /// The rest is not specified.
  open: bool,
}

impl<'a> Check<'a> {
  fn ev(&self) -> &'a Ev {
    &self.evs[self.at.min(self.evs.len() - 1)]
  }

  /// Compares the next operation, returns its result.
  fn step(&mut self, op: &str, want: Result<String, Fail>) -> Result<bool, String> {
    let e = self.ev();
    let bad = |what: String| Err(format!("operation {}: {what}, got {e:?}", self.at));
    if e.op != op {
      return bad(format!("expected {op}"));
    }
    let once = e.text.matches("error: ").count() == 1;
    let mut text = String::new();
    let ok = want.is_ok();
    match want {
      Ok(s) => {
        if e.res.as_ref() != Ok(&s) {
          return bad(format!("expected {s}"));
        }
      }
      Err(f) => {
        self.errors += 1;
        match f {
          Fail::Open => {
            self.open = true;
            if e.res == Err(true) && !once {
              return bad("expected one error".into());
            }
            return Ok(false);
          }
          Fail::Fatal(cause) => {
            let cause = cause.map(|c| simcore::feed::error_of(c).to_string());
            if e.res != Err(true) || !once || cause.as_ref().is_some_and(|c| !e.text.contains(c)) {
              return bad(format!("expected a fatal error ({cause:?})"));
            }
            self.open |= cause.is_none();
            text = e.text.clone();
          }
          Fail::Lex(msg, at) => text = report("error", &msg, self.name, self.doc, at),
          Fail::Expected(name, t, _) => {
            let msg = format!("expected {name}, found {}", t.name());
            text = report("error", &msg, self.name, self.doc, t.span);
          }
        }
        let fatal = e.res == Err(true);
        if e.res.is_ok() || (fatal && e.text != text) {
          return bad(format!("expected the error {text:?}"));
        }
      }
    }
    if e.text != text {
      return bad(format!("expected the report\n{text}"));
    }
    if e.errors != self.errors || e.warnings != self.warnings {
      return bad(format!("expected {} errors, {} warnings", self.errors, self.warnings));
    }
    self.at += 1;
    Ok(ok)
  }
}

fn plural(n: usize, what: &str) -> String {
  match n {
    0 => String::new(),
    1 => format!("1 {what}"),
    n => format!("{n} {what}s"),
  }
}

/// How messages about needless reads start.
const EAGER: &str = "eager: ";

/// Whether the operations are the ones of the reference, up to the point where
/// the rest is not specified.
fn compare(c: &mut Check, m: &mut CharModel, plan: &Plan, eager: bool) -> Result<(), String> {
  let mut p = Parser::new(m, eager);
  let mut items = 0;
  let mut reads = 0;
  macro_rules! step {
    ($op:literal, $want:expr) => {{
      let ok = c.step($op, $want)?;
      if c.open {
        return Ok(());
      }
      if lazy() {
        let end = c.evs[c.at - 1].reads;
        if let Some(why) = p.input().eager(reads..end) {
          return Err(format!("{EAGER}operation {} ({}): {why}", c.at - 1, $op));
        }
        reads = end;
      }
      ok
    }};
  }
  loop {
    let t = p.peek();
    let eof = matches!(&t, Ok(t) if t.k == K::Eof);
    if !step!("peek", t.map(|t| t.show())) {
      continue;
    }
    if eof {
      break;
    }
    let item = p.item();
    match item {
      Ok(i) => {
        step!("item", Ok(i.text));
        if plan.warn >> (items % 64) & 1 == 1 {
          c.warnings += 1;
          let mut want = report("warning", &format!("item {items}"), c.name, c.doc, i.span.unwrap());
          if !diag::LOGGER {
            want.clear();
          }
          let e = c.ev();
          if e.op != "warn" || e.text != want {
            return Err(format!("operation {}: expected the warning\n{want}got {e:?}", c.at));
          }
          if e.errors != c.errors || e.warnings != c.warnings {
            return Err(format!("operation {}: expected {} warnings, got {e:?}", c.at, c.warnings));
          }
          c.at += 1;
        }
        items += 1;
      }
      Err(f) => {
        let offending = match &f {
          Fail::Expected(_, t, true) => Some(t.clone()),
          _ => None,
        };
        step!("item", Err(f));
        // the offending token of a set may have been taken or not
        if let Some(t) = offending {
          if c.ev().res.as_ref() == Ok(&t.show()) {
            p.unread(t);
          }
        }
        let t = p.peek();
        step!("look", t.map(|t| t.show()));
        loop {
          let mut all = Vec::new();
          let r = loop {
            match p.next() {
              Ok(t) if matches!(t.k, K::Other(';' | '}') | K::Eof) => {
                p.unread(t);
                break Ok(if plan.collect { all.join(" ") } else { String::new() });
              }
              Ok(t) => all.push(t.show()),
              Err(e) => break Err(e),
            }
          };
          if step!("skip", r) {
            break;
          }
        }
        let t = p.next().map_err(|_| "HARNESS sync")?;
        step!("sync", Ok(t.show()));
        if t.k == K::Eof {
          p.unread(t);
        }
      }
    }
  }
  // the summary
  let (e, w) = (plural(c.errors, "error"), plural(c.warnings, "warning"));
  let and = if e.is_empty() || w.is_empty() { "" } else { " and " };
  let mut want = format!("{e}{and}{w} emitted\n");
  if !diag::LOGGER {
    want.clear();
  }
  let ev = c.ev();
  let none = e.is_empty() && w.is_empty();
  if ev.op != "summary" || (ev.text != want && !none) {
    return Err(format!("expected the summary {want:?}, got {ev:?}"));
  }
  Ok(())
}

/// Forgets what the standard library has read from the standard input.
fn drain_stdin() {
  os::with(|o| o.stdin = Some(Rc::new(RefCell::new(Feed::new(Vec::new(), Vec::new(), 0)))));
  let mut lock = std::io::stdin().lock();
  let n = std::io::BufRead::fill_buf(&mut lock).map_or(0, |b| b.len());
  std::io::BufRead::consume(&mut lock, n);
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let source = Source {
    doc: plan.text.clone(),
    corrupt: plan.corrupt.clone(),
    steps: plan.steps.clone(),
    tail: plan.tail,
  };
  let data = source.bytes();
  let valid = std::str::from_utf8(&data).ok();
  let file = plan.stream == Stream::File;
  let on_disk = file || (plan.on_disk && matches!(plan.stream, Stream::Sim));
  if on_disk && valid.is_none() {
    return Ok(());
  }
  let mut feed = Feed::new(data.clone(), plan.steps.clone(), plan.tail);
  feed.syscalls = file || plan.stream == Stream::Stdin;
  let feed = Rc::new(RefCell::new(feed));
  os::with(|o| {
    o.wsteps = plan.wsteps.clone();
    if on_disk {
      o.files.push((FILE.into(), Node::Data(file.then(|| feed.clone()), data.clone())));
    }
  });
  let mut memory = false;
  let input = match plan.stream {
    Stream::Memory if valid.is_some() => {
      memory = true;
      Input::Mem(Reader::from(valid.unwrap().to_string()))
    }
    Stream::File => Input::File(Reader::from_path(FILE).expect("HARNESS open")),
    Stream::Stdin => {
      drain_stdin();
      os::with(|o| o.stdin = Some(feed.clone()));
      Input::Stdin(Reader::from_stdin())
    }
    _ => Input::Sim(Reader::new(
      SimRead(feed.clone()),
      if on_disk { FileType::File(Path::new(FILE).into()) } else { FileType::Buffer },
    )),
  };
  let (evs, end) = front(input, &feed, plan);
  if plan.stream == Stream::Stdin {
    drain_stdin();
  }
  for e in &evs {
    ctx.log(|| match &e.res {
      Ok(s) => format!("{} -> {s} {}", e.op, e.text),
      Err(f) => format!("{} -> {}error {}", e.op, if *f { "fatal " } else { "" }, e.text),
    });
  }
  let mut last = None;
  for eager in [true, false] {
    let mut m = match memory {
      true => CharModel::in_memory(true, &data),
      false => CharModel::new(true),
    };
    m.refresh(&feed.borrow());
    let mut c = Check {
      evs: &evs,
      at: 0,
      errors: 0,
      warnings: 0,
      name: match plan.stream {
        _ if on_disk => FILE,
        Stream::Stdin => "<stdin>",
        _ => "<buffer>",
      },
      // excerpts are printed by the logger
      doc: if on_disk && diag::LOGGER { valid } else { None },
      open: false,
    };
    match compare(&mut c, &mut m, plan, eager) {
      Err(e) => {
        last.get_or_insert((e, c.at));
        continue;
      }
      Ok(()) if c.open => ctx.count("probe.open", 1),
      Ok(()) => {
        ctx.count("probe.complete", 1);
        let at = (end.start().line, end.start().col);
        ensure!(at == m.loc, "location", "the input ends at {at:?}, expected {:?}", m.loc);
      }
    }
    last = None;
    if !eager {
      ctx.count("probe.lazy", 1);
    }
    break;
  }
  if let Some((msg, at)) = last {
    let kind = match msg.starts_with(EAGER) {
      true => "eager",
      false => evs.get(at).map_or("end", |e| e.op),
    };
    return Viol::new(kind, msg);
  }
  for e in &evs {
    ctx.count(
      match (e.op, &e.res) {
        ("item", Ok(_)) => "probe.items",
        ("warn", _) => "probe.warnings",
        (_, Err(true)) => "probe.fatal_errors",
        ("item", Err(_)) => "probe.failed_items",
        (_, Err(_)) => "probe.lexical_errors",
        _ => "probe.other",
      },
      1,
    );
  }
  let tokens = evs.iter().any(|e| e.op == "item");
  ctx.nontrivial = tokens && (memory || feed.borrow().log.len() > 2);
  ctx.count_feed(&feed.borrow());
  os::with(|o| {
    ctx.count("fault.short_write", o.short_writes);
    ctx.count("fault.EINTR_write", o.eintr_writes);
    ctx.count("probe.excerpt_files", o.opens);
  });
  Ok(())
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let text = program(r, deep);
  let f = Faults {
    eintr: true,
    ..Default::default()
  };
  let (mut steps, mut tail) = gen_steps(r, text.len(), f);
  let stream = [Stream::Sim, Stream::Sim, Stream::Memory, Stream::File, Stream::Stdin][r.below(5)];
  if r.chance(1, 3) {
    // failing reads, mostly between two tokens
    let gaps: Vec<usize> = std::iter::once(0)
      .chain(text.char_indices().filter(|(_, c)| c.is_whitespace()).map(|(i, c)| i + c.len_utf8()))
      .collect();
    let mut at: Vec<usize> = (0..r.range(1, 3))
      .map(|_| if r.chance(1, 10) { r.below(text.len() + 1) } else { *r.pick(&gaps) })
      .collect();
    at.sort_unstable();
    steps.clear();
    let mut from = 0;
    for a in at {
      while from < a {
        let n = match r.below(3) {
          0 => 1,
          1 => r.range(1, a - from),
          _ => a - from,
        };
        if r.chance(1, 8) {
          steps.push(Step::Eintr);
        }
        let n = n.min(1000);
        steps.push(Step::Give(n));
        from += n;
      }
      (0..r.range(1, 2)).for_each(|_| steps.push(Step::Fail(r.below(simcore::feed::KINDS as usize) as u8)));
    }
    tail = *r.pick(&[0, 1, 3]);
  }
  let corrupt = if matches!(stream, Stream::Sim | Stream::Stdin) && r.chance(1, 10) { gen_corrupt(r, text.len()) } else { Vec::new() };
  let wsteps = match r.below(4) {
    0 => (0..r.range(1, 30))
      .map(|_| if r.chance(1, 3) { WStep::Eintr } else { WStep::Short(r.range(1, 9)) })
      .collect(),
    _ => Vec::new(),
  };
  Plan {
    stream,
    on_disk: corrupt.is_empty() && r.chance(1, 2),
    text,
    corrupt,
    steps,
    tail,
    wsteps,
    warn: if r.chance(1, 2) { r.next() } else { 0 },
    collect: r.chance(1, 2),
  }
}

const REAL: &[&str] = &[
  "laps: reader, input, derived lexer with literals, token buffer, all parsers of the language (derived structs and enums, sequences, lists, prefixes, options, boxes, tuples, token_ast), spans and reports",
  "laps_macros and laps_regex (expansion of the lexer)",
  "std::fs::File, std::io::Stdin (including its buffer), std::io::Stderr",
];
const STUB: &[&str] = &["the source behind Read, files, the standard input and error below the system calls, getrandom (also in the process of the macro)"];

pub fn props() -> Vec<Prop> {
  vec![Prop::new("E01", 150_000, 12_000_000, gen, run)
    .rule("one run = one program of a small language with mistakes in tokens and syntax, read from memory, a reader, a file or the standard input in short and interrupted reads, with failing reads and corruptions, through reader, lexer, token buffer and parsers by a driver that warns about items and resumes behind the next end of a statement after errors, to a standard error with short and interrupted writes; non-trivial = at least one item was parsed, or failed to be, from at least two reads or memory")
    .real(REAL)
    .stub(STUB)
    .assumptions(&[
      "after a read has failed inside of a token, or malformed UTF-8, the rest of the run is not compared",
      "the offending token of a failed parse may be consumed or left in the stream",
      "constructs with #[starts_with] may look at all of the tokens, or stop at the first that does not fit",
    ])]
}
