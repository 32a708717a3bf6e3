//! T01: token buffers and token streams over a simulated tokenizer.

use crate::queue::*;
use crate::diag;
use laps::parse::Parse;
use laps::span::{FileType, Result as LResult, Span};
use laps::token::{Token, TokenBuffer, TokenStream};
use serde::{Deserialize, Serialize};
use simcore::{ensure, Ctx, Prop, Rng, Viol};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TPred {
  Kind(u8),
  Even,
  /// Holds for every nth token that is seen.
  Nth(u32),
  Any,
  End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
  Next,
  Peek,
  Peek2,
  PeekN(usize),
  Unread,
  UnreadNew(Code),
  SkipUntil(TPred),
  CollectUntil(TPred),
  Expect(Code),
  Lookahead(usize),
  Maybe(Vec<usize>),
  ParseTok(usize),
  MaybeTok(usize),
  /// Continues with the inner tokenizer in a new token buffer.
  Rewrap,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  minimal: bool,
  items: Vec<TItem>,
  ops: Vec<TOp>,
}

fn holds(p: &TPred, k: &K, seen: u32) -> bool {
  *k == K::End
    || match p {
      TPred::Kind(c) => std::mem::discriminant(k) == std::mem::discriminant(&Code(*c, 0).kind()),
      TPred::Even => ast_accepts(6, k),
      TPred::Nth(n) => seen % n.max(&1) == n.max(&1) - 1,
      TPred::Any => true,
      TPred::End => false,
    }
}

fn real_maybe<S: TokenStream<Token = Token<K>>>(s: &mut S, ast: usize) -> LResult<bool> {
  match ast {
    0 => <Tok![num]>::maybe(s),
    1 => <Tok![word]>::maybe(s),
    2 => <Tok![+]>::maybe(s),
    3 => <Tok![-]>::maybe(s),
    4 => <Tok![lp]>::maybe(s),
    5 => <Tok![rp]>::maybe(s),
    6 => <Tok![even]>::maybe(s),
    7 => <Tok![sign]>::maybe(s),
    _ => <Tok![end]>::maybe(s),
  }
}

fn real_parse<S: TokenStream<Token = Token<K>>>(s: &mut S, ast: usize) -> LResult<Token<K>> {
  macro_rules! p {
    ($t:tt) => {
      s.parse::<Tok![$t]>().map(|t| t.0)
    };
  }
  match ast {
    0 => p!(num),
    1 => p!(word),
    2 => p!(+),
    3 => p!(-),
    4 => p!(lp),
    5 => p!(rp),
    6 => p!(even),
    7 => p!(sign),
    _ => p!(end),
  }
}

fn real_chain<S: TokenStream<Token = Token<K>>>(s: &mut S, asts: &[usize]) -> LResult<bool> {
  let mut l = s.lookahead();
  for a in asts {
    l = match a {
      0 => l.maybe(Tok![num])?,
      1 => l.maybe(Tok![word])?,
      2 => l.maybe(Tok![+])?,
      3 => l.maybe(Tok![-])?,
      4 => l.maybe(Tok![lp])?,
      5 => l.maybe(Tok![rp])?,
      6 => l.maybe(Tok![even])?,
      7 => l.maybe(Tok![sign])?,
      _ => l.maybe(Tok![end])?,
    };
  }
  l.result()
}

trait Stream: TokenStream<Token = Token<K>> + Sized {
  fn rewrap(self) -> Self;
}

impl Stream for TokenBuffer<SimTok, Token<K>> {
  fn rewrap(self) -> Self {
    Self::from(self.into_inner())
  }
}

impl Stream for Minimal {
  fn rewrap(self) -> Self {
    Self {
      tokenizer: self.tokenizer,
      buf: Vec::new(),
    }
  }
}

fn drive<S: Stream>(
  s: S,
  base: &Span,
  state: &Rc<RefCell<TokState>>,
  plan: &Plan,
  ctx: &mut Ctx,
) -> Result<(), Viol> {
  let n = plan.items.len();
  let mut m = Model {
    items: Rc::new(plan.items.clone()),
    front: VecDeque::new(),
    pos: 0,
  };
  let mut s = Some(s);
  let mut held: Vec<Token<K>> = Vec::new();
  let mut fresh = 1_000_000;
  let mut errors = 0;
  let tail = std::iter::repeat(&TOp::Next).take(n + 8);
  for (step, op) in plan.ops.iter().chain(tail).enumerate() {
    let t = s.as_mut().unwrap();
    let mut report: Option<String> = None;
    let (got, want) = match op {
      TOp::Next => {
        let r = t.next_token();
        if let Ok(t) = &r {
          held.push(t.clone());
        }
        (fmt_one(res(r, |t| id_of(&t))), fmt_one(m.next()))
      }
      TOp::Peek => (
        fmt_one(res(t.peek(), |t| id_of(&t))),
        fmt_one(m.peek_n(1).map(|mut v| v.remove(0))),
      ),
      TOp::Peek2 => (
        fmt_many(res(t.peek2(), |(a, b)| vec![id_of(&a), id_of(&b)])),
        fmt_many(m.peek_n(2)),
      ),
      TOp::PeekN(k) => (
        fmt_many(res(t.peek_n(*k), |v| v.iter().map(id_of).collect())),
        fmt_many(m.peek_n(*k)),
      ),
      TOp::Unread => match held.pop() {
        Some(tok) => {
          m.unread(id_of(&tok));
          t.unread(tok);
          (String::new(), String::new())
        }
        None => continue,
      },
      TOp::UnreadNew(c) => {
        fresh += 1;
        let tok = make(base, fresh, c.kind());
        m.unread(id_of(&tok));
        t.unread(tok);
        (String::new(), String::new())
      }
      TOp::SkipUntil(p) => {
        let mut i = 0;
        let r = t.skip_until(|t| {
          i += 1;
          holds(p, &t.kind, i - 1)
        });
        held.clear();
        let mut i = 0;
        let want = loop {
          match m.next() {
            Ok(t) => {
              i += 1;
              if holds(p, &t.1, i - 1) {
                m.unread(t);
                break "ok".to_string();
              }
            }
            Err(f) => break fmt_one(Err(f)),
          }
        };
        let got = match r {
          Ok(()) => "ok".into(),
          Err(e) => fmt_one(Err(diag::is_fatal(&e))),
        };
        (got, want)
      }
      TOp::CollectUntil(p) => {
        let mut i = 0;
        let r = t.collect_until(|t| {
          i += 1;
          holds(p, &t.kind, i - 1)
        });
        held.clear();
        let got = fmt_many(res(r, |v| v.iter().map(id_of).collect()));
        let mut i = 0;
        let mut v = Vec::new();
        let want = loop {
          match m.next() {
            Ok(t) => {
              i += 1;
              if holds(p, &t.1, i - 1) {
                m.unread(t);
                break fmt_many(Ok(v));
              }
              v.push(t);
            }
            Err(f) => break fmt_many(Err(f)),
          }
        };
        (got, want)
      }
      TOp::Expect(c) => {
        let k = c.kind();
        let r = t.expect(k.clone());
        if let Ok(t) = &r {
          held.push(t.clone());
        }
        let got = fmt_one(res(r, |t| id_of(&t)));
        let want = match m.next() {
          Ok(tok) if tok.1 == k => fmt_one(Ok(tok)),
          Ok(tok) => {
            report = Some(format!("expected {}, found {}", show(&k), show(&tok.1)));
            m.unread(tok);
            fmt_one(Err(false))
          }
          Err(f) => fmt_one(Err(f)),
        };
        (got, want)
      }
      TOp::Lookahead(k) => {
        let mut l = t.lookahead();
        let mut got = Vec::new();
        for _ in 0..*k {
          let r = res(l.peek_next(), |t| id_of(&t));
          let stop = r.is_err();
          got.push(fmt_one(r));
          // goes on after the first failure only sometimes
          if stop && k % 2 == 0 {
            break;
          }
        }
        drop(l);
        let mut want = Vec::new();
        let mut taken = Vec::new();
        for _ in 0..*k {
          let r = m.next();
          if let Ok(t) = &r {
            taken.push(t.clone());
          }
          let stop = r.is_err();
          want.push(fmt_one(r));
          if stop && k % 2 == 0 {
            break;
          }
        }
        for t in taken.into_iter().rev() {
          m.unread(t);
        }
        ctx.count("probe.lookahead", 1);
        (got.join(" "), want.join(" "))
      }
      TOp::Maybe(asts) => {
        let r = real_chain(t, asts);
        let got = format!("{:?}", res(r, |b| b));
        // the decision is made at the first token that does not fit
        let mut decided = None;
        let mut taken = Vec::new();
        let mut want = format!("{:?}", Ok::<bool, bool>(true));
        for a in asts {
          match m.next() {
            Ok(tok) => {
              if decided.is_none() && !ast_accepts(*a, &tok.1) {
                decided = Some(());
                want = format!("{:?}", Ok::<bool, bool>(false));
              }
              taken.push(tok);
            }
            Err(f) if decided.is_none() => {
              want = format!("{:?}", Err::<bool, bool>(f));
              break;
            }
            Err(f) => {
              // a failure behind the decision may be reported or kept
              let e = format!("{:?}", Err::<bool, bool>(f));
              if got == e {
                want = e;
              } else {
                m.pos -= 1;
              }
              break;
            }
          }
        }
        for t in taken.into_iter().rev() {
          m.unread(t);
        }
        ctx.count("probe.chain", 1);
        (got, want)
      }
      TOp::ParseTok(a) => {
        let r = real_parse(t, *a);
        if let Ok(t) = &r {
          held.push(t.clone());
        }
        let got = fmt_one(res(r, |t| id_of(&t)));
        let want = match m.next() {
          Ok(tok) if ast_accepts(*a, &tok.1) => fmt_one(Ok(tok)),
          Ok(tok) => {
            let (p, keep) = ast_prompt(*a);
            report = Some(format!("expected {}, found {}", p, show(&tok.1)));
            if keep {
              m.unread(tok);
            }
            fmt_one(Err(false))
          }
          Err(f) => fmt_one(Err(f)),
        };
        (got, want)
      }
      TOp::MaybeTok(a) => {
        let got = format!("{:?}", res(real_maybe(t, *a), |b| b));
        let want = match m.peek_n(1) {
          Ok(v) => format!("{:?}", Ok::<bool, bool>(ast_accepts(*a, &v[0].1))),
          Err(f) => format!("{:?}", Err::<bool, bool>(f)),
        };
        (got, want)
      }
      TOp::Rewrap => {
        // buffered tokens are gone, everything else is not
        s = Some(s.take().unwrap().rewrap());
        m.front.clear();
        m.pos = state.borrow().pos;
        held.clear();
        (String::new(), String::new())
      }
    };
    ctx.log(|| format!("{op:?} -> {got}"));
    if want.ends_with("error") || want.starts_with("Err") {
      ctx.count("probe.failed_operations", 1);
    }
    ensure!(got == want, "mismatch", "step {step} {op:?}: got {got}, expected {want}");
    // nothing is pulled ahead of the demand
    let pulled = state.borrow().pos;
    ensure!(
      pulled <= m.pos.max(m.front.iter().filter(|t| t.0 < 1_000_000).map(|t| t.0 + 1).max().unwrap_or(0)),
      "eager",
      "step {step} {op:?}: {pulled} items pulled from the tokenizer, {} are needed",
      m.pos
    );
    let text = diag::take();
    match report {
      Some(msg) => {
        errors += 1;
        ensure!(
          text.starts_with(&format!("error: {msg}\n")),
          "report",
          "step {step} {op:?}: reported {text:?}, expected {msg:?}"
        );
        ctx.count("probe.mismatch_reported", 1);
      }
      None => ensure!(text.is_empty(), "report", "step {step} {op:?}: unexpected report {text:?}"),
    }
    ensure!(
      base.error_num() == errors && base.warning_num() == 0,
      "count",
      "step {step} {op:?}: {} errors counted, expected {errors}",
      base.error_num()
    );
  }
  Ok(())
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let base = Span::new(FileType::Buffer);
  let state = Rc::new(RefCell::new(TokState {
    items: plan.items.clone(),
    pos: 0,
  }));
  let tokenizer = SimTok {
    base: base.clone(),
    state: state.clone(),
  };
  let fails = plan.items.iter().filter(|i| matches!(i, TItem::Fail(_))).count();
  ctx.count("fault.tokenizer_failure", fails as u64);
  ctx.nontrivial = plan.ops.len() >= 2 && !plan.items.is_empty();
  if plan.minimal {
    let s = Minimal {
      tokenizer,
      buf: Vec::new(),
    };
    drive(s, &base, &state, plan, ctx)
  } else {
    drive(TokenBuffer::new(tokenizer), &base, &state, plan, ctx)
  }
}

fn gen_code(r: &mut Rng) -> Code {
  Code(r.weighted(&[6, 3, 3, 3, 2, 2, 1]) as u8, r.below(4) as u32)
}

fn gen_pred(r: &mut Rng) -> TPred {
  match r.below(7) {
    0..=2 => TPred::Kind(r.below(7) as u8),
    3 => TPred::Even,
    4 => TPred::Nth(r.range(1, 6) as u32),
    5 => TPred::Any,
    _ => TPred::End,
  }
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let many = r.chance(1, 400);
  let n = match many {
    true => r.range(100, 600),
    false => r.size(if deep { 120 } else { 40 }),
  };
  let w_fail = if many { 0 } else { [0, 1, 4, 10][r.below(4)] };
  let items: Vec<TItem> = (0..n)
    .map(|_| {
      if r.below(20) < w_fail {
        TItem::Fail(r.chance(1, 2))
      } else {
        TItem::Tok(gen_code(r))
      }
    })
    .collect();
  let w = [
    [4, 3, 3, 4, 4, 1, 1, 1, 3, 3, 3, 3, 2, 0],
    [2, 4, 4, 6, 4, 2, 0, 0, 1, 4, 4, 0, 1, 0],
    [2, 1, 1, 1, 1, 1, 3, 3, 2, 1, 1, 2, 1, 1],
    [1, 0, 0, 1, 1, 1, 0, 0, 1, 2, 6, 2, 2, 0],
  ][r.below(4)];
  let k = r.range(1, if deep { 160 } else { 60 });
  // operations often fit to the tokens
  let near = |r: &mut Rng, items: &[TItem]| match items.get(r.below(items.len().max(1))) {
    Some(TItem::Tok(c)) if r.chance(3, 4) => *c,
    _ => gen_code(r),
  };
  let ops = (0..k)
    .map(|_| match r.weighted(&w) {
      0 => TOp::Next,
      1 => TOp::Peek,
      2 => TOp::Peek2,
      3 => TOp::PeekN(r.below(if many { 500 } else { 7 })),
      4 => TOp::Unread,
      5 => TOp::UnreadNew(gen_code(r)),
      6 => TOp::SkipUntil(gen_pred(r)),
      7 => TOp::CollectUntil(gen_pred(r)),
      8 => TOp::Expect(near(r, &items)),
      9 => TOp::Lookahead(r.below(if many { 300 } else { 6 })),
      10 => {
        let len = r.range(1, 4);
        let at = r.below(items.len().max(1));
        TOp::Maybe(
          (0..len)
            .map(|i| match items.get(at + i) {
              Some(TItem::Tok(c)) if r.chance(4, 5) => {
                let k = c.kind();
                (0..ASTS).filter(|a| ast_accepts(*a, &k)).last().unwrap_or(0)
              }
              _ => r.below(ASTS),
            })
            .collect(),
        )
      }
      11 => TOp::ParseTok(r.below(ASTS)),
      12 => TOp::MaybeTok(r.below(ASTS)),
      _ => TOp::Rewrap,
    })
    .collect();
  Plan {
    minimal: r.chance(2, 5),
    items,
    ops,
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("T01", 400_000, 20_000_000, gen, run)
    .rule("one run = one token stream implementation (TokenBuffer, or the default methods of the trait), one scripted tokenizer with failures at arbitrary positions, and one workload of stream operations; non-trivial = at least one scripted token and two operations")
    .real(&[
      "laps::token::{TokenBuffer, TokenStream, Lookahead, Token}",
      "token_kind and token_ast expansions",
      "the error logger",
    ])
    .stub(&["the tokenizer (scripted tokens and failures)", "the kernel below std (write(2), getrandom)"])]
}
