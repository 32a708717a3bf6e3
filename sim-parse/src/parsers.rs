//! P01, P02: every construct against the reference interpreter.

use crate::grammar::*;
use crate::queue::*;
use crate::types::{table, Case, CASES};
use crate::diag;
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::reader::Reader;
use laps::span::{FileType, Span};
use laps::token::{Token, TokenBuffer, TokenStream};
use serde::{Deserialize, Serialize};
use simcore::model::lazy;
use simcore::{ensure, Ctx, Feed, Prop, Rng, SimRead, Step, Viol};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
  /// Token buffer over scripted tokens.
  Buffer,
  /// Default methods of the trait over scripted tokens.
  Minimal,
  /// Token buffer, derived lexer and reader over a faulty source.
  Source,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum POp {
  Maybe(usize),
  Parse(usize),
  Next,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  kind: Kind,
  items: Vec<TItem>,
  ops: Vec<POp>,
  /// Sizes of the reads of the source.
  chunks: Vec<usize>,
}

/// How tokens are identified.
type Ids = Box<dyn Fn(&Token<K>) -> usize>;

fn drive<S: TokenStream<Token = Token<K>>>(
  mut s: S,
  cases: &[Case<S>],
  base: &Span,
  state: Option<&RefCell<TokState>>,
  ids: Ids,
  plan: &Plan,
  ctx: &mut Ctx,
) -> Result<(), Viol> {
  let n = plan.items.len();
  let e2e = plan.kind == Kind::Source;
  let mut m = Model {
    items: Rc::new(plan.items.clone()),
    front: VecDeque::new(),
    pos: 0,
  };
  let one = |t: &Token<K>| format!("{:?}#{}", t.kind, ids(t));
  let mone = |t: &MTok| format!("{:?}#{}", t.1, t.0.min(n));
  let fail = |f: bool| if f { "fatal error" } else { "error" }.to_string();
  let mut errors = 0;
  let tail = std::iter::repeat(&POp::Next).take(n + 3);
  for (step, op) in plan.ops.iter().chain(tail).enumerate() {
    let mut mismatch = None;
    let mut what = String::new();
    let (got, want, failed) = match op {
      POp::Next => {
        let got = match s.next_token() {
          Ok(t) => one(&t),
          Err(e) => fail(diag::is_fatal(&e)),
        };
        match m.next() {
          Ok(t) => (got, mone(&t), false),
          Err(f) => (got, fail(f), true),
        }
      }
      POp::Maybe(c) => {
        let case = &cases[c % CASES];
        what = format!("maybe {}", case.name);
        let got = match (case.maybe)(&mut s) {
          Ok(b) => b.to_string(),
          Err(e) => fail(diag::is_fatal(&e)),
        };
        // the answer is already fixed behind the first token that does not
        // fit, so a failure behind that token may or may not be observed
        let mut out = None;
        for eager in [true, false] {
          let mut m2 = m.clone();
          let r = maybe(&(case.gram)(), &mut m2, eager);
          let failed = r.is_err();
          let want = match r {
            Ok(b) => b.to_string(),
            Err(f) => fail(f),
          };
          let ok = want == got;
          if eager || ok {
            out = Some((want, failed, m2));
          }
          if ok {
            break;
          }
        }
        let (want, failed, m2) = out.unwrap();
        m = m2;
        ctx.count(if failed { "probe.maybe_failed" } else { "probe.maybe" }, 1);
        ctx.count("probe.maybe_true", (want == "true") as u64);
        (got, want, failed)
      }
      POp::Parse(c) => {
        let case = &cases[c % CASES];
        what = format!("parse {}", case.name);
        let mut span = None;
        let got = match (case.parse)(&mut s) {
          Ok((t, sp)) => {
            let mut text = String::new();
            t.show(&*ids, &mut text);
            span = Some((t, sp));
            text
          }
          Err(e) => fail(diag::is_fatal(&e)),
        };
        let mut out = None;
        for eager in [true, false] {
          let mut m2 = m.clone();
          let mut failed = false;
          let mut mis = None;
          let want = match parse(&(case.gram)(), &mut m2, eager) {
            Ok(t) => {
              let mut text = String::new();
              t.show(n, &mut text);
              text
            }
            Err(Fail::Tok(f)) => {
              failed = true;
              fail(f)
            }
            Err(Fail::Mismatch(ast, tok)) => {
              mis = Some((ast, tok));
              fail(false)
            }
          };
          let ok = want == got;
          if eager || ok {
            out = Some((want, failed, mis, m2));
          }
          if ok {
            break;
          }
        }
        let (want, failed, mis, m2) = out.unwrap();
        m = m2;
        mismatch = mis;
        ctx.count(
          if failed {
            "probe.parse_failed"
          } else if mismatch.is_some() {
            "probe.parse_mismatch"
          } else {
            "probe.parse_ok"
          },
          1,
        );
        // the span of the construct
        if let Some((tree, Some(span))) = &span {
          let ends = tree.ends();
          let got = span.as_ref().map(|s| (s.start(), s.end()));
          let want = ends.map(|(a, b)| (a.span.start(), b.span.end()));
          ensure!(got == want, "span", "step {step} {what}: span {got:?}, expected {want:?} of {tree:?}");
          ctx.count("probe.spans", 1);
        }
        (got, want, failed)
      }
    };
    ctx.log(|| format!("{op:?} {what} -> {got}"));
    ensure!(got == want, "mismatch", "step {step} {op:?} {what}: got {got}, expected {want}");
    if let (true, Some(state)) = (lazy(), state) {
      let pulled = state.borrow().pos;
      let need = m.front.iter().map(|t| t.0 + 1).max().unwrap_or(0).max(m.pos);
      ensure!(
        // all tokens at the end are the same
        pulled <= need || pulled > n,
        "eager",
        "step {step} {op:?} {what}: {pulled} tokens were taken from the tokenizer, {need} are needed"
      );
    }
    // reports
    let text = diag::take();
    if let Some((ast, tok)) = mismatch {
      errors += 1;
      let msg = format!("error: expected {}, found {}\n", ast_prompt(ast).0, show(&tok.1));
      ensure!(
        text.starts_with(&msg) && text.matches("error").count() == 1,
        "report",
        "step {step} {what}: reported {text:?}, expected {msg:?}"
      );
      // the offending token is either still there or not
      let first = s.next_token();
      match &first {
        Ok(t) if ids(t) == tok.0.min(n) => {
          let at = t.span.start();
          ensure!(
            tok.0 >= n || text.contains(&format!("at <buffer>:{at}\n")),
            "report",
            "step {step} {what}: reported {text:?} instead of location {at}"
          );
          s.unread(t.clone());
          m.unread(tok);
        }
        _ => {
          let got = match &first {
            Ok(t) => one(t),
            Err(e) => fail(diag::is_fatal(&e)),
          };
          let next = m.next();
          let want = match &next {
            Ok(t) => mone(t),
            Err(f) => fail(*f),
          };
          ensure!(
            got == want,
            "lost",
            "step {step} {what}: after the report about {tok:?} got {got}, expected {want}"
          );
          if let (Ok(t), Ok(mt)) = (first, next) {
            s.unread(t);
            m.unread(mt);
          } else if e2e {
            errors += 1;
          }
        }
      }
      diag::take();
    } else if failed && e2e {
      errors += 1;
      ensure!(
        text.starts_with("error: ") && text.matches("error:").count() == 1,
        "report",
        "step {step} {what}: reported {text:?} for a failed read"
      );
    } else {
      ensure!(text.is_empty(), "report", "step {step} {what}: unexpected report {text:?}");
    }
    ensure!(
      base.error_num() == errors && base.warning_num() == 0,
      "count",
      "step {step} {op:?} {what}: {} errors counted, expected {errors}",
      base.error_num()
    );
  }
  Ok(())
}

/// The document of the tokens, their locations and the trace of its delivery.
fn document(plan: &Plan) -> (String, Vec<Step>, HashMap<(u32, u32), usize>) {
  let mut doc = String::new();
  let mut loc = (1u32, 0u32);
  let mut starts = HashMap::new();
  let mut steps = Vec::new();
  let mut given = 0;
  let mut chunks = plan.chunks.iter().cycle();
  let mut fill = |upto: usize, steps: &mut Vec<Step>| {
    while given < upto {
      let k = chunks.next().map_or(usize::MAX, |c| *c).clamp(1, (upto - given).min(1000));
      steps.push(Step::Give(k));
      if k % 5 == 3 {
        steps.push(Step::Eintr);
      }
      given += k;
    }
  };
  for (id, item) in plan.items.iter().enumerate() {
    match item {
      TItem::Tok(c) => {
        let text = c.text();
        starts.insert(
          (loc.0, loc.1 + 1),
          id,
        );
        let blank = ["\n", " ", "  ", "\t", " \n "][(id * 7 + c.1 as usize) % 5];
        doc.push_str(&text);
        loc.1 += text.len() as u32;
        for b in blank.chars() {
          if b == '\n' {
            loc = (loc.0 + 1, 0);
          } else {
            loc.1 += 1;
          }
        }
        doc.push_str(blank);
      }
      TItem::Fail(_) => {
        fill(doc.len(), &mut steps);
        steps.push(Step::Fail(id as u8));
      }
    }
  }
  fill(doc.len(), &mut steps);
  (doc, steps, starts)
}

type Source = TokenBuffer<Lexer<Reader<SimRead>, K>, Token<K>>;

struct Tables {
  buffer: Vec<Case<TokenBuffer<SimTok, Token<K>>>>,
  minimal: Vec<Case<Minimal>>,
  source: Vec<Case<Source>>,
}

thread_local! {
  static TABLES: Tables = Tables {
    buffer: table(),
    minimal: table(),
    source: table(),
  };
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let n = plan.items.len();
  let fails = plan.items.iter().filter(|i| matches!(i, TItem::Fail(_))).count();
  ctx.nontrivial = !plan.ops.is_empty() && n > 0;
  let simple: Ids = Box::new(move |t| (t.span.start().line as usize / 3).min(n));
  let state = Rc::new(RefCell::new(TokState {
    items: plan.items.clone(),
    pos: 0,
  }));
  let base = Span::new(FileType::Buffer);
  let tokenizer = SimTok {
    base: base.clone(),
    state: state.clone(),
  };
  let state = Some(&*state);
  TABLES.with(|t| match plan.kind {
    Kind::Buffer => {
      ctx.count("fault.tokenizer_failure", fails as u64);
      drive(TokenBuffer::new(tokenizer), &t.buffer, &base, state, simple, plan, ctx)
    }
    Kind::Minimal => {
      ctx.count("fault.tokenizer_failure", fails as u64);
      let s = Minimal {
        tokenizer,
        buf: Vec::new(),
      };
      drive(s, &t.minimal, &base, state, simple, plan, ctx)
    }
    Kind::Source => {
      // an end token can not be in the middle, and failed reads are fatal
      let mut plan = plan.clone();
      plan.items.retain(|i| !matches!(i, TItem::Tok(c) if c.kind() == K::End));
      for i in &mut plan.items {
        if let TItem::Fail(f) = i {
          *f = true;
        }
      }
      let (doc, steps, starts) = document(&plan);
      let feed = SimRead::new(Feed::new(doc.into_bytes(), steps, 0));
      let reader: Reader<_> = Reader::new(feed.clone(), FileType::Buffer);
      let base = reader.span().clone();
      let n = plan.items.len();
      let ids: Ids = Box::new(move |t| match t.kind {
        K::End => n,
        _ => {
          let at = t.span.start();
          starts.get(&(at.line, at.col)).copied().unwrap_or(usize::MAX)
        }
      });
      let r = drive(TokenBuffer::new(K::lexer(reader)), &t.source, &base, None, ids, &plan, ctx);
      ctx.count_feed(&feed.0.borrow());
      r
    }
  })
}

fn gen(r: &mut Rng, deep: bool, w_maybe: usize) -> Plan {
  let kind = [Kind::Buffer, Kind::Minimal, Kind::Source][r.weighted(&[3, 2, 3])];
  let mut tokens = Vec::new();
  let mut ops = Vec::new();
  let k = r.range(1, if deep { 10 } else { 4 });
  let grams: Vec<Gram> = (0..k)
    .map(|_| {
      let c = r.below(CASES);
      while r.chance(w_maybe, w_maybe + 2) {
        // this construct or another one
        ops.push(POp::Maybe(if r.chance(1, 2) { c } else { r.below(CASES) }));
      }
      if r.chance(1, 10) {
        ops.push(POp::Next);
      }
      if w_maybe < 4 || r.chance(1, 2) {
        ops.push(POp::Parse(c));
      } else {
        ops.push(POp::Maybe(c));
        ops.push(POp::Next);
      }
      TABLES.with(|t| (t.minimal[c].gram)())
    })
    .collect();
  for g in &grams {
    let max = if r.chance(1, 1000) { r.range(150, 700) } else { 60 };
    derive(g, r, 0, max, &mut tokens);
  }
  // mutations
  let w = [0, 0, 1, 2, 4][r.below(5)];
  for _ in 0..w {
    let at = r.below(tokens.len() + 1);
    let c = Code(r.weighted(&[6, 4, 4, 4, 3, 3, 1]) as u8, r.below(1000) as u32);
    match r.below(5) {
      0 => tokens.insert(at, c),
      1 if at < tokens.len() => {
        tokens.remove(at);
      }
      2 if at < tokens.len() => tokens[at] = c,
      3 => tokens.truncate(at),
      _ if at + 1 < tokens.len() => tokens.swap(at, at + 1),
      _ => tokens.push(c),
    }
  }
  let mut items: Vec<TItem> = tokens.into_iter().map(TItem::Tok).collect();
  let fails = [0, 0, 1, 1, 2, 3][r.below(6)];
  for _ in 0..fails {
    let at = r.below(items.len() + 1);
    items.insert(at, TItem::Fail(r.chance(1, 2)));
  }
  let chunks = match r.below(4) {
    0 => vec![],
    1 => vec![1],
    _ => (0..r.range(1, 6)).map(|_| r.range(1, 9)).collect(),
  };
  Plan {
    kind,
    items,
    ops,
    chunks,
  }
}

pub fn props() -> Vec<Prop> {
  let real: &'static [&'static str] = &[
    "laps::parse, laps::ast, laps::token, laps::span",
    "laps_macros: derived Parse, Spanned and Tokenize, token_kind, token_ast",
    "laps::reader and laps::lexer (end to end runs)",
  ];
  let stub: &'static [&'static str] = &[
    "the tokenizer (scripted tokens and failures), or the byte source (end to end runs)",
    "the kernel below std (write(2), getrandom)",
  ];
  let assumptions: &'static [&'static str] = &[
    "what a construct with #[starts_with] decides if the tokenizer fails behind the first token that does not fit is not determined",
    "the offending token of a failed parse may be consumed or left in the stream",
  ];
  vec![
    Prop::new("P01", 800_000, 60_000_000, |r, d| gen(r, d, 4), run)
      .rule("one run = one token stream (scripted tokens through TokenBuffer or through the default methods, or reader and derived lexer over a faulty source), random derivations of constructs with mutations and failures, and mostly decisions (maybe), followed by draining the stream; non-trivial = at least one token and one operation")
      .real(real)
      .stub(stub)
      .assumptions(assumptions),
    Prop::new("P02", 800_000, 60_000_000, |r, d| gen(r, d, 1), run)
      .rule("one run = one token stream (scripted tokens through TokenBuffer or through the default methods, or reader and derived lexer over a faulty source), random derivations of constructs with mutations and failures, and mostly parses, followed by draining the stream; non-trivial = at least one token and one operation")
      .real(real)
      .stub(stub)
      .assumptions(assumptions),
  ]
}
