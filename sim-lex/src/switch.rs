//! L04: several lexers and direct reads on one input.

use crate::diag;
use crate::lexers::*;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Result as LResult, Span};
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::os::{self, Node};
use simcore::regex::{DEAD, INIT};
use simcore::{ensure, Ctx, Feed, Prop, Rng, SimRead, Step, Viol};
use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  /// The next token of the lexer.
  Next,
  /// The next token, by calling the token kind.
  Direct,
  /// The next token, through a token buffer that is taken apart again.
  Buffered(u8),
  /// Takes the input out of the lexer and hands it to another one.
  Switch(usize),
  /// Operations of the input.
  Read,
  Peek,
  Back,
  Skip(u32),
  Collect(u32),
  Line(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  /// Definitions and their copies.
  defs: Vec<(usize, usize)>,
  stream: Stream,
  doc: Vec<u32>,
  corrupt: Vec<Corrupt>,
  steps: Vec<Step>,
  tail: usize,
  ops: Vec<Op>,
}

/// What an operation must do.
#[derive(Debug, PartialEq)]
enum Want {
  Token(usize, String, (Loc, Loc)),
  /// An error with this message at this place.
  Error(String, Loc),
  /// A read fails (this way), or the text is malformed.
  Fatal(Option<u8>),
  Chars(Vec<Option<u32>>, Option<(Loc, Loc)>),
}

fn loc(s: &Span) -> (Loc, Loc) {
  loc_of(s)
}

fn unread_input() -> Viol {
  Viol {
    kind: "skipped".into(),
    msg: "the result depends on input that was never read".into(),
  }
}

/// Takes the next token from the model of the input.
fn lex(def: &Def, r: &mut Reference, m: &mut CharModel, failed: bool) -> Result<Want, Viol> {
  loop {
    let start = match m.peek().ok_or_else(unread_input)? {
      Item::IoErr(e) => return Ok(Want::Fatal(Some(e))),
      Item::Bad => return Ok(Want::Fatal(None)),
      Item::Eof => {
        return Ok(match r.eof {
          Some(e) => Want::Token(e, String::new(), (m.loc, m.loc)),
          None => Want::Error("unexpected end-of-file".into(), m.loc),
        })
      }
      Item::Char(c) => advance(m.loc, c),
    };
    let (mut text, mut state, mut eof) = (Vec::new(), INIT, false);
    loop {
      match m.look() {
        None if r.m.alive(state) => return Err(unread_input()),
        None => break,
        Some(Item::Char(c)) => {
          state = match r.m.step(state, c) {
            DEAD => {
              m.peek();
              break;
            }
            n => n,
          };
          m.take();
          text.push(c);
        }
        Some(Item::Eof) => {
          m.take();
          eof = true;
          break;
        }
        // nobody needs to look behind a text that can not become longer
        Some(_) if !failed && !r.m.alive(state) => break,
        Some(i) => {
          m.take();
          return Ok(Want::Fatal(match i {
            Item::IoErr(e) => Some(e),
            _ => None,
          }));
        }
      }
    }
    let tag = if text.is_empty() { None } else { r.m.tag(state) };
    return Ok(match tag.map(|t| (t, &def.vars[t])) {
      Some((_, v)) if v.kind == Kind::Skip => continue,
      Some((t, v)) => match value(def, v.field, &text) {
        Some(s) => Want::Token(t, s, (start, m.loc)),
        None => Want::Error(format!("invalid {}", r.names[t]), start),
      },
      None if eof => Want::Error("unexpected end-of-file".into(), start),
      None => Want::Error("unrecognized token".into(), start),
    });
  }
}

/// An operation of the input, and what it must do.
fn raw<I, C>(i: &mut I, op: &Op) -> LResult<(Vec<Option<u32>>, Option<(Loc, Loc)>)>
where
  I: InputStream<CharType = C>,
  C: Clone + Into<u32>,
{
  Ok(match op {
    Op::Read => {
      let (c, s) = i.next_char_span()?;
      (vec![c.map(|c| c.into())], Some(loc(&s)))
    }
    Op::Peek => {
      let (c, s) = i.peek_with_span()?;
      (vec![c.map(|c| c.into())], Some(loc(&s)))
    }
    Op::Back => {
      let (c, l) = i.next_char_loc()?;
      i.unread((c.clone(), l));
      (vec![c.map(|c| c.into())], None)
    }
    Op::Skip(x) => {
      i.skip_until(|c| c.into() == *x)?;
      (vec![], None)
    }
    Op::Collect(x) => {
      let (v, s) = i.collect_with_span_until(|c| c.clone().into() == *x)?;
      (v.into_iter().map(|c| Some(c.into())).collect(), Some(loc(&s)))
    }
    Op::Line(l, c) => {
      i.set_line_col(*l, *c);
      (vec![], None)
    }
    _ => unreachable!(),
  })
}

fn raw_want(m: &mut CharModel, op: &Op) -> Result<Want, Viol> {
  fn fatal(i: Item) -> Want {
    Want::Fatal(match i {
      Item::IoErr(e) => Some(e),
      _ => None,
    })
  }
  Ok(match op {
    Op::Read => match m.take().ok_or_else(unread_input)? {
      Item::Char(c) => Want::Chars(vec![Some(c)], Some((m.loc, m.loc))),
      Item::Eof => Want::Chars(vec![None], Some((m.loc, m.loc))),
      i => fatal(i),
    },
    Op::Peek => match m.peek().ok_or_else(unread_input)? {
      Item::Char(c) => Want::Chars(vec![Some(c)], Some((advance(m.loc, c), advance(m.loc, c)))),
      Item::Eof => Want::Chars(vec![None], Some((m.loc, m.loc))),
      i => fatal(i),
    },
    Op::Back => {
      let at = m.loc;
      match m.take().ok_or_else(unread_input)? {
        Item::Char(c) => {
          m.unread(Some(c), at);
          Want::Chars(vec![Some(c)], None)
        }
        Item::Eof => Want::Chars(vec![None], None),
        i => fatal(i),
      }
    }
    Op::Skip(x) | Op::Collect(x) => {
      let mut v = Vec::new();
      let mut span = None;
      loop {
        match m.peek().ok_or_else(unread_input)? {
          Item::Char(c) if c != *x => {
            m.take();
            v.push(Some(c));
            span = Some((span.map_or(m.loc, |(s, _)| s), m.loc));
          }
          Item::Char(c) => {
            span = span.or(Some((advance(m.loc, c), advance(m.loc, c))));
            break;
          }
          Item::Eof => {
            span = span.or(Some((m.loc, m.loc)));
            break;
          }
          i => return Ok(fatal(i)),
        }
      }
      match op {
        Op::Skip(_) => Want::Chars(vec![], None),
        _ => Want::Chars(v, span),
      }
    }
    Op::Line(l, c) => {
      m.loc = (*l, *c);
      Want::Chars(vec![], None)
    }
    _ => unreachable!(),
  })
}

const END: Op = Op::Collect(u32::MAX);

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let first = &DEFS[plan.defs[0].0 % DEFS.len()];
  let bytes = first.bytes;
  let defs: Vec<(usize, usize)> = plan
    .defs
    .iter()
    .map(|(d, c)| (d % DEFS.len(), c % 2))
    .filter(|(d, _)| DEFS[*d].bytes == bytes)
    .collect();
  // the document
  let mut data: Vec<u8> = Vec::new();
  for c in &plan.doc {
    match char::from_u32(*c) {
      _ if bytes => data.push(*c as u8),
      Some(c) => data.extend(c.encode_utf8(&mut [0; 4]).bytes()),
      None => return Ok(()),
    }
  }
  if !plan.corrupt.is_empty() {
    let source = Source {
      doc: String::new(),
      corrupt: plan.corrupt.clone(),
      steps: Vec::new(),
      tail: 0,
    };
    data = source.corrupted(data);
  }
  let memory = plan.stream == Stream::Memory && (bytes || std::str::from_utf8(&data).is_ok());
  let real_file = plan.stream == Stream::File;
  let mut m = if memory { CharModel::in_memory(!bytes, &data) } else { CharModel::new(!bytes) };
  let feed = Rc::new(RefCell::new(Feed::new(data.clone(), plan.steps.clone(), plan.tail)));
  if real_file {
    // the logger reads it again
    os::with(|o| o.files.push((FILE.into(), Node::Data(Some(feed.clone()), data.clone()))));
  }
  let sim = SimRead(feed.clone());
  let ft = if real_file { FileType::File(Path::new(FILE).into()) } else { FileType::Buffer };
  let name = if real_file { FILE } else { "<buffer>" };
  let mut cur = 0;
  let mut lexer = match &DEFS[defs[0].0].make[defs[0].1] {
    Make::Chars(f) => f(match plan.stream {
      _ if memory => CharInput::Mem(Reader::from(String::from_utf8(data.clone()).unwrap())),
      Stream::File => CharInput::File(Reader::from_path(FILE).expect("HARNESS open")),
      Stream::Minimal => CharInput::Min(Minimal(Reader::new(sim, ft))),
      _ => CharInput::Sim(Reader::new(sim, ft)),
    }),
    Make::Bytes(f) => f(match plan.stream {
      _ if memory => {
        let data: &'static [u8] = Box::leak(data.clone().into_boxed_slice());
        ByteInput::Mem(ByteReader::from(data))
      }
      Stream::File => ByteInput::File(ByteReader::from_path(FILE).expect("HARNESS open")),
      Stream::Minimal => ByteInput::Min(Minimal(ByteReader::new(sim, ft))),
      _ => ByteInput::Sim(ByteReader::new(sim, ft)),
    }),
  };
  let root = lexer.span();
  let mut errors = 0;
  let mut step = 0;
  let mut ends = 0;
  let mut tokens = vec![0u32; defs.len()];
  let limit = plan.ops.len() + 2 * plan.steps.len() + 4;
  // all operations, then everything that is left
  while ends < 2 {
    let op = plan.ops.get(step).unwrap_or(&END);
    let over = step >= plan.ops.len();
    step += 1;
    if step > limit {
      // malformed text never ends
      break;
    }
    diag::take();
    if let Op::Switch(k) = op {
      cur = k % defs.len();
      let input = lexer.into_input();
      let (d, c) = defs[cur];
      lexer = match &DEFS[d].make[c] {
        Make::Chars(f) => f(*input.downcast::<CharInput>().expect("HARNESS input")),
        Make::Bytes(f) => f(*input.downcast::<ByteInput>().expect("HARNESS input")),
      };
      ctx.log(|| format!("lexer {cur}"));
      let text = diag::take();
      ensure!(text.is_empty(), "report", "step {step} {op:?}: printed {text:?}");
    } else {
      let served = feed.borrow().log.len();
      let got = match op {
        Op::Next => lexer.next().map(|(i, v, s)| Want::Token(i, v, loc(&s))),
        Op::Direct => lexer.direct().map(|(i, v, s)| Want::Token(i, v, loc(&s))),
        Op::Buffered(by) => {
          let (t, l) = lexer.buffered(*by);
          lexer = l;
          t.map(|(i, v, s)| Want::Token(i, v, loc(&s)))
        }
        op => {
          let input = lexer.input_mut();
          let r = if bytes {
            raw(input.downcast_mut::<ByteInput>().expect("HARNESS input"), op)
          } else {
            raw(input.downcast_mut::<CharInput>().expect("HARNESS input"), op)
          };
          r.map(|(c, s)| Want::Chars(c, s))
        }
      };
      let failed = got.as_ref().is_err_and(|e| diag::is_fatal(e));
      let text = diag::take();
      if !memory {
        for o in &feed.borrow().log[served..] {
          ctx.log(|| format!("  source: {o:?}"));
        }
        m.refresh(&feed.borrow());
      }
      let show = match &got {
        Ok(w) => format!("{w:?}"),
        Err(_) => format!("{} error, {text:?}", if failed { "fatal" } else { "normal" }),
      };
      ctx.log(|| format!("{op:?} -> {show}"));
      let before = m.taken;
      let want = match op {
        Op::Next | Op::Direct | Op::Buffered(_) => {
          let mut r = reference(defs[cur].0).lock().unwrap_or_else(|e| e.into_inner());
          lex(&DEFS[defs[cur].0], &mut r, &mut m, failed)
        }
        op => raw_want(&mut m, op),
      };
      let want = want.map_err(|v| Viol {
        kind: v.kind,
        msg: format!("step {step} {op:?}: got {show}, {}", v.msg),
      })?;
      let ok = match (&want, &got) {
        (Want::Error(msg, at), Err(_)) => {
          errors += 1;
          ctx.count("probe.error", 1);
          !failed && text.starts_with(&format!("error: {msg}\n  at {name}:{}:{}\n", at.0, at.1)) && text.matches("error: ").count() == 1
        }
        (Want::Fatal(e), Err(_)) => {
          errors += 1;
          ctx.count(if e.is_some() { "probe.failed" } else { "probe.malformed" }, 1);
          ctx.count("probe.failed_inside", (m.taken > before) as u64);
          let cause = e.map_or(String::new(), |e| simcore::feed::error_of(e).to_string());
          failed && text.matches("error: ").count() == 1 && text.contains(&cause)
        }
        (w, Ok(g)) => w == g && text.is_empty(),
        _ => false,
      };
      ensure!(ok, "switch", "step {step} {op:?} of lexer {cur}: got {show}, expected {want:?}");
      match &want {
        Want::Token(..) => {
          tokens[cur] += (m.taken > before) as u32;
          ctx.count("probe.token", 1);
        }
        Want::Chars(c, _) => ctx.count("probe.chars_between", c.len() as u64),
        _ => {}
      }
      if over {
        // ends only count if nothing is in front of them
        ends += matches!(&want, Want::Chars(c, _) if c.is_empty()) as usize;
      }
    }
    ensure!(root.error_num() == errors, "count", "step {step} {op:?}: {} errors counted, expected {errors}", root.error_num());
    ensure!(root.warning_num() == 0, "count", "{} warnings counted", root.warning_num());
    let here = loc(&lexer.span());
    ensure!(
      here == (m.loc, m.loc),
      "location",
      "step {step} {op:?}: the input is at {here:?}, expected {:?}",
      m.loc
    );
  }
  ctx.nontrivial = tokens.iter().filter(|t| **t > 0).count() > 1;
  ctx.count("probe.lexers", tokens.iter().filter(|t| **t > 0).count() as u64);
  ctx.count_feed(&feed.borrow());
  ctx.count(if bytes { "probe.bytes" } else { "probe.chars" }, 1);
  Ok(())
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let d = r.below(DEFS.len());
  let bytes = DEFS[d].bytes;
  let mut defs = vec![(d, r.below(2))];
  for _ in 0..r.range(1, 3) {
    let d = loop {
      let d = r.below(DEFS.len());
      if DEFS[d].bytes == bytes {
        break d;
      }
    };
    defs.push((d, r.below(2)));
  }
  // pieces of the document, with operations that fit to them
  let mut doc: Vec<u32> = Vec::new();
  let mut ops = Vec::new();
  let mut cur = 0;
  let noise = r.below(4);
  // every piece in a line of its own, so that the lexers stay in step with it
  let lines = r.chance(2, 3);
  for _ in 0..r.range(2, if deep { 24 } else { 10 }) {
    let k = r.below(defs.len());
    let mut refr = reference(defs[k].0).lock().unwrap_or_else(|e| e.into_inner());
    match r.weighted(&[10, noise, 2]) {
      0 => doc.extend(refr.m.text(r, 24)),
      1 => (0..r.range(1, 3)).for_each(|_| doc.push(refr.m.symbol(r))),
      _ => doc.push(*r.pick(&[' ', '\n', '\t']) as u32),
    }
    drop(refr);
    if k != cur && !r.chance(1, 6) {
      ops.push(Op::Switch(k));
      cur = k;
    }
    ops.push(match r.below(6) {
      0 => Op::Direct,
      1 => Op::Buffered(r.below(3) as u8),
      _ => Op::Next,
    });
    if lines {
      doc.push('\n' as u32);
      if r.chance(1, 2) {
        ops.push(Op::Next);
      }
      ops.push(if r.chance(1, 2) { Op::Skip('\n' as u32) } else { Op::Collect('\n' as u32) });
      if r.chance(7, 8) {
        ops.push(Op::Read);
      }
    }
    while r.chance(1, if lines { 12 } else { 5 }) {
      let x = match doc.is_empty() || r.chance(1, 3) {
        true => '\n' as u32,
        false => doc[r.below(doc.len())],
      };
      ops.push(match r.below(8) {
        0 | 1 => Op::Read,
        2 => Op::Peek,
        3 => Op::Back,
        4 => Op::Skip(x),
        5 => Op::Collect(x),
        6 => Op::Line(r.range(1, 5000) as u32, r.below(300) as u32),
        _ => Op::Next,
      });
    }
  }
  doc.retain(|c| bytes || char::from_u32(*c).is_some());
  let total: usize = doc.iter().map(|c| if bytes { 1 } else { char::from_u32(*c).map_or(1, |c| c.len_utf8()) }).sum();
  let f = Faults {
    eintr: true,
    fail: r.chance(1, 3),
    eof: r.chance(1, 3),
  };
  let (steps, tail) = gen_steps(r, total, f);
  Plan {
    defs,
    stream: [Stream::Sim, Stream::Sim, Stream::Memory, Stream::Minimal, Stream::File][r.below(5)],
    doc,
    corrupt: if r.chance(1, 10) { gen_corrupt(r, total) } else { Vec::new() },
    steps,
    tail,
    ops,
  }
}

const REAL: &[&str] = &[
  "code generated by laps_macros (derive Tokenize) for every definition, built by the real macro with laps_regex",
  "laps::lexer::Lexer (lexer, input, input_mut, into_input), Tokenize::next_token, laps::token::TokenBuffer, laps::reader, laps::input, laps::span",
];
const STUB: &[&str] = &["the source behind Read, files, the standard error, getrandom (also in the process of the macro)"];
const RULE: &str = "one run = one input, two to four lexer definitions over it, a document made of texts of all of them and noise, one delivery trace with short, interrupted and failing reads, temporary ends and corruptions, and a sequence of tokens (by lexer, by kind, through a buffer), switches and operations of the input; non-trivial = at least two lexers returned tokens with text";

pub fn props() -> Vec<Prop> {
  vec![Prop::new("L04", 300_000, 30_000_000, gen, run)
    .rule(RULE)
    .real(REAL)
    .stub(STUB)
    .assumptions(&["no token of a definition matches the empty text"])]
}
