//! T02: tokens as values, in symbol tables.

use crate::diag;
use laps::ast::*;
use laps::prelude::*;
use laps::span::{FileType, Location, Result as LResult, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use serde::{Deserialize, Serialize};
use simcore::{ensure, Ctx, Prop, Rng, Viol};
use std::borrow::{Borrow, BorrowMut};
use std::collections::hash_map::RandomState;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;
use std::hash::{BuildHasher, Hash, Hasher};

/// A name of a type.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Name(String);

impl std::fmt::Display for Name {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    // in several pieces
    self.0.chars().try_for_each(|c| f.write_char(c))
  }
}

/// Kinds of all shapes.
#[token_kind]
#[derive(Debug, Eq, Hash)]
pub enum V {
  /// Number.
  Num(u32),
  Word(String),
  /// A SIGNED number
  Signed(i64),
  /// Documented in
  /// Two lines.
  Text(Name),
  SingleChar(char),
  Flag(bool),
  /// Pair of bytes
  Pair(u8, u8),
  Named {
    a: u8,
    b: char,
  },
  Nothing(),
  /// ","
  Comma,
  /// `{` or `}`, or {}.
  Brace,
  BigPlusSign,
  X,
  /// Three DOTS...
  Dots,
  /// Range `a..`.
  Range(u16),
  /** An item, i.e. a
      block. */
  Block {
    depth: i8,
  },
  /// End-of-file.
  End,
}

token_ast! {
  #[derive(Debug, PartialEq)]
  pub(crate) macro crate::values::Tv<V> {
    [num] => { kind: V::Num(_), prompt: "number" },
    [,] => { kind: V::Comma },
  }
}

/// The model of a kind.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Val {
  Num(u32),
  Word(String),
  Signed(i64),
  Text(String),
  Char(char),
  Flag(bool),
  Pair(u8, u8),
  Named(u8, char),
  Nothing,
  Comma,
  Brace,
  Big,
  X,
  Dots,
  Range(u16),
  Block(i8),
  End,
}

impl Val {
  fn kind(&self) -> V {
    match self {
      Val::Num(n) => V::Num(*n),
      Val::Word(s) => V::Word(s.clone()),
      Val::Signed(n) => V::Signed(*n),
      Val::Text(s) => V::Text(Name(s.clone())),
      Val::Char(c) => V::SingleChar(*c),
      Val::Flag(b) => V::Flag(*b),
      Val::Pair(a, b) => V::Pair(*a, *b),
      Val::Named(a, b) => V::Named { a: *a, b: *b },
      Val::Nothing => V::Nothing(),
      Val::Comma => V::Comma,
      Val::Brace => V::Brace,
      Val::Big => V::BigPlusSign,
      Val::X => V::X,
      Val::Dots => V::Dots,
      Val::Range(n) => V::Range(*n),
      Val::Block(d) => V::Block { depth: *d },
      Val::End => V::End,
    }
  }

  fn of(k: &V) -> Self {
    match k {
      V::Num(n) => Val::Num(*n),
      V::Word(s) => Val::Word(s.clone()),
      V::Signed(n) => Val::Signed(*n),
      V::Text(s) => Val::Text(s.0.clone()),
      V::SingleChar(c) => Val::Char(*c),
      V::Flag(b) => Val::Flag(*b),
      V::Pair(a, b) => Val::Pair(*a, *b),
      V::Named { a, b } => Val::Named(*a, *b),
      V::Nothing() => Val::Nothing,
      V::Comma => Val::Comma,
      V::Brace => Val::Brace,
      V::BigPlusSign => Val::Big,
      V::X => Val::X,
      V::Dots => Val::Dots,
      V::Range(n) => Val::Range(*n),
      V::Block { depth } => Val::Block(*depth),
      V::End => Val::End,
    }
  }

  fn show(&self) -> String {
    match self {
      Val::Num(n) => format!("number `{n}`"),
      Val::Word(s) => format!("word `{s}`"),
      Val::Signed(n) => format!("a signed number `{n}`"),
      Val::Text(s) => format!("documented in two lines `{s}`"),
      Val::Char(c) => format!("single char `{c}`"),
      Val::Flag(b) => format!("flag `{b}`"),
      Val::Pair(..) => "pair of bytes".into(),
      Val::Named(..) => "named".into(),
      Val::Nothing => "nothing".into(),
      Val::Comma => "\",\"".into(),
      Val::Brace => "`{` or `}`, or {}".into(),
      Val::Big => "big plus sign".into(),
      Val::X => "x".into(),
      Val::Dots => "three dots..".into(),
      Val::Range(n) => format!("range `a..` `{n}`"),
      Val::Block(_) => "an item, i.e. a\n      block".into(),
      Val::End => "end-of-file".into(),
    }
  }

  /// The kind that is made from the value alone.
  fn from_value(&self, span: Span) -> Option<Token<V>> {
    Some(match self {
      Val::Num(n) => Token::new(*n, span),
      Val::Word(s) => Token::new(s.clone(), span),
      Val::Signed(n) => Token::new(*n, span),
      Val::Text(s) => Token::new(Name(s.clone()), span),
      Val::Char(c) => Token::new(*c, span),
      Val::Range(n) => Token::new(*n, span),
      Val::Flag(b) => Token::new(*b, span),
      // a kind is made of itself
      k => Token::new(k.kind(), span),
    })
  }
}

/// A hasher that keeps a few bits only.
#[derive(Clone)]
struct Weak(u64, u32);

impl Hasher for Weak {
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.0 = simcore::rng::mix(self.0 ^ *b as u64);
    }
  }
  fn finish(&self) -> u64 {
    self.0.checked_shr(64 - self.1).unwrap_or(0)
  }
}

impl BuildHasher for Weak {
  type Hasher = Self;
  fn build_hasher(&self) -> Self {
    self.clone()
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
  Tok(Val),
  Fail(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  /// Takes the next token and enters it into the tables.
  Pull,
  /// Looks the next token up without taking it.
  Peek,
  /// Looks up by kind, or by a token from somewhere else.
  Look(Val, bool),
  Remove(Val, bool),
  Compare(usize, usize),
  /// Changes the kind of a copy in one of several ways.
  Set(usize, Val, u8),
  Convert(usize),
  Show(usize, usize),
  Make(Val),
  /// Parses numbers with commas in between as a sequence, and goes over it.
  Seq(u8, Vec<u32>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  items: Vec<Item>,
  ops: Vec<Op>,
  seed: u64,
  bits: u32,
}

struct Script<'a> {
  base: &'a Span,
  items: &'a [Item],
  pos: usize,
}

fn at(base: &Span, id: usize) -> Span {
  let mut span = base.clone();
  span.update_loc(Location { line: id as u32 + 1, col: 1 });
  span
}

fn id(t: &Token<V>) -> usize {
  t.span.start().line as usize - 1
}

impl Tokenizer for Script<'_> {
  type Token = Token<V>;
  fn next_token(&mut self) -> LResult<Token<V>> {
    let id = self.pos;
    self.pos += 1;
    let span = at(self.base, id);
    match self.items.get(id) {
      Some(Item::Tok(v)) => Ok(Token { kind: v.kind(), span }),
      Some(Item::Fail(f)) => Err(diag::simulated(*f)),
      None => Ok(Token { kind: V::End, span }),
    }
  }
}

/// A writer that fails after some characters.
struct Limited {
  text: String,
  left: usize,
  failed: bool,
}

impl Write for Limited {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    if self.failed {
      self.text.push_str("<written after a failure>");
    }
    for c in s.chars() {
      if self.left == 0 {
        self.failed = true;
        return Err(std::fmt::Error);
      }
      self.left -= 1;
      self.text.push(c);
    }
    Ok(())
  }
}

/// A conversion fails for all kinds but one.
fn converted<'a, T>(k: &'a V, want: Option<T>) -> Result<(), String>
where
  T: TryFrom<V, Error = ()> + PartialEq + std::fmt::Debug + 'a,
  &'a T: TryFrom<&'a V, Error = ()>,
{
  let by_ref: Option<&T> = k.try_into().ok();
  if by_ref != want.as_ref() {
    return Err(format!("{k:?} by reference gives {by_ref:?}, expected {want:?}"));
  }
  let by_value: Option<T> = k.clone().try_into().ok();
  if by_value != want {
    return Err(format!("{k:?} gives {by_value:?}, expected {want:?}"));
  }
  Ok(())
}

fn conversions(v: &Val, k: &V) -> Result<(), String> {
  macro_rules! only {
    ($t:ty, $p:pat => $e:expr) => {
      converted::<$t>(k, match v {
        $p => Some($e),
        _ => None,
      })?
    };
  }
  only!(u32, Val::Num(n) => *n);
  only!(String, Val::Word(s) => s.clone());
  only!(i64, Val::Signed(n) => *n);
  only!(Name, Val::Text(s) => Name(s.clone()));
  only!(char, Val::Char(c) => *c);
  only!(bool, Val::Flag(b) => *b);
  only!(u16, Val::Range(n) => *n);
  Ok(())
}

fn hash_of(s: &impl BuildHasher, t: &impl Hash) -> u64 {
  s.hash_one(t)
}

/// Values of the items in all orders of access.
fn sequence(which: u8, nums: &[u32], base: &Span) -> Result<[Vec<u32>; 3], String> {
  let n = nums.len();
  let trailing = which == 3 || which == 4;
  let mut items = Vec::new();
  for (i, x) in nums.iter().enumerate() {
    items.push(Item::Tok(Val::Num(*x)));
    if which != 0 && (i + 1 < n || trailing && x % 2 == 0) {
      items.push(Item::Tok(Val::Comma));
    }
  }
  let mut tokens = TokenBuffer::new(Script { base, items: &items, pos: 0 });
  let value = |t: &Tv![num]| match t.0.kind {
    V::Num(n) => n,
    _ => unreachable!(),
  };
  macro_rules! go {
    ($t:ty) => {{
      let mut seq: $t = tokens.parse().map_err(|_| "the sequence was not parsed".to_string())?;
      let by_ref = (&seq).into_iter().map(value).collect();
      let mut left = Vec::new();
      for (i, t) in (&mut seq).into_iter().enumerate() {
        left.push(value(t));
        // every item is changed once
        t.0.kind = V::Num(i as u32);
      }
      let positions: Vec<_> = seq.into_iter().map(|t: Tv![num]| value(&t)).collect();
      if positions != (0..n as u32).collect::<Vec<_>>() {
        return Err(format!("changed items {positions:?}, expected all of {n}"));
      }
      let rest = tokens.next_token().map_err(|_| "the rest failed".to_string())?;
      if rest != V::End {
        return Err(format!("left {rest}"));
      }
      Ok([by_ref, left, nums.to_vec()])
    }};
  }
  match which {
    0 => go!(NonEmptySeq<Tv![num]>),
    1 => go!(SepSeq<Tv![num], Tv![,]>),
    2 => go!(NonEmptySepSeq<Tv![num], Tv![,]>),
    3 => go!(OptSepSeq<Tv![num], Tv![,]>),
    _ => go!(NonEmptyOptSepSeq<Tv![num], Tv![,]>),
  }
}

/// A row of the model: value, first token, number of tokens.
type Row = (Val, usize, usize);

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let base = Span::new(FileType::Buffer);
  let mut tokens = TokenBuffer::new(Script { base: &base, items: &plan.items, pos: 0 });
  let weak = Weak(plan.seed, plan.bits);
  let random = RandomState::new();
  let mut t1: HashMap<Token<V>, usize> = HashMap::with_hasher(random.clone());
  let mut t2: HashMap<Token<V>, usize, Weak> = HashMap::with_hasher(weak.clone());
  let mut set: HashSet<Token<V>, Weak> = HashSet::with_hasher(weak.clone());
  let mut rows: Vec<Row> = Vec::new();
  let mut held: Vec<(Val, Token<V>)> = Vec::new();
  let mut pos = 0;
  let mut far = 1_000_000;
  ctx.nontrivial = plan.ops.len() >= 2 && !plan.items.is_empty();
  for (step, op) in plan.ops.iter().enumerate() {
    let label = || format!("step {step} {op:?}");
    macro_rules! check {
      ($got:expr, $want:expr) => {{
        let (got, want) = ($got, $want);
        ctx.log(|| format!("{op:?} -> {got:?}"));
        ensure!(got == want, "mismatch", "{}: got {got:?}, expected {want:?}", label());
      }};
    }
    let model = |rows: &[Row], v: &Val| rows.iter().find(|r| r.0 == *v).map(|r| (r.1, r.2));
    match op {
      Op::Pull => {
        let at = pos;
        pos += 1;
        let want = match plan.items.get(at) {
          Some(Item::Tok(v)) => Ok(v.clone()),
          Some(Item::Fail(f)) => Err(*f),
          None => Ok(Val::End),
        };
        let got = tokens.next_token();
        match (got, want) {
          (Err(e), Err(f)) => {
            ctx.count("fault.tokenizer_failure", 1);
            ensure!(diag::is_fatal(&e) == f, "severity", "{}: the severity changed", label());
          }
          (Ok(t), Ok(v)) => {
            check!((id(&t), Val::of(&t.kind)), (at, v.clone()));
            *t1.entry(t.clone()).or_insert(0) += 1;
            *t2.entry(t.clone()).or_insert(0) += 1;
            let new = set.insert(t.clone());
            match rows.iter_mut().find(|r| r.0 == v) {
              Some(r) => {
                ctx.count("probe.equal_tokens", 1);
                r.2 += 1;
                check!(new, false);
              }
              None => {
                rows.push((v.clone(), at, 1));
                check!(new, true);
              }
            }
            held.push((v, t));
          }
          (got, want) => {
            return Viol::new("mismatch", format!("{}: got {}, expected {want:?}", label(), got.is_ok()))
          }
        }
      }
      Op::Peek => match tokens.peek() {
        Ok(t) => {
          let v = Val::of(&t.kind);
          check!(t1.get(&t).copied(), model(&rows, &v).map(|r| r.1));
        }
        // a failure that was seen is not seen again
        Err(_) => pos += 1,
      },
      Op::Look(v, by_token) => {
        far += 1;
        let kind = v.kind();
        let t = Token { kind: v.kind(), span: at(&base, far) };
        let a = match by_token {
          true => t1.get_key_value(&t),
          false => t1.get_key_value(&kind),
        };
        let b = match by_token {
          true => t2.get_key_value(&t),
          false => t2.get_key_value(&kind),
        };
        let c = match by_token {
          true => set.get(&t),
          false => set.get(&kind),
        };
        let want = model(&rows, v);
        check!(a.map(|(k, n)| (id(k), *n)), want);
        check!(b.map(|(k, n)| (id(k), *n)), want);
        check!(c.map(id), want.map(|r| r.0));
        ctx.count(if want.is_some() { "probe.found" } else { "probe.not_found" }, 1);
      }
      Op::Remove(v, by_token) => {
        far += 1;
        let kind = v.kind();
        let t = Token { kind: v.kind(), span: at(&base, far) };
        let (a, b, c) = match by_token {
          true => (t1.remove_entry(&t), t2.remove_entry(&t), set.take(&t)),
          false => (t1.remove_entry(&kind), t2.remove_entry(&kind), set.take(&kind)),
        };
        let want = model(&rows, v);
        rows.retain(|r| r.0 != *v);
        check!(a.map(|(k, n)| (id(&k), n)), want);
        check!(b.map(|(k, n)| (id(&k), n)), want);
        check!(c.map(|k| id(&k)), want.map(|r| r.0));
      }
      _ if held.is_empty() && !matches!(op, Op::Make(_) | Op::Seq(..)) => {}
      Op::Compare(i, j) => {
        let (va, a) = &held[i % held.len()];
        let (vb, b) = &held[j % held.len()];
        let same = va == vb;
        ctx.count(if same { "probe.same" } else { "probe.different" }, 1);
        check!(
          [a == b, b == a, !(a != b), *a == b.kind, *b == a.kind, a.kind == b.kind, !(*a != b.kind)],
          [same; 7]
        );
        let hashes = |t: &Token<V>| {
          let k: &V = t.borrow();
          let r: &V = t.as_ref();
          [
            [hash_of(&random, t), hash_of(&random, k), hash_of(&random, r), hash_of(&random, &t.kind)],
            [hash_of(&weak, t), hash_of(&weak, k), hash_of(&weak, r), hash_of(&weak, &t.kind)],
          ]
        };
        for t in [a, b] {
          let h = hashes(t);
          check!(h.map(|h| h.iter().all(|x| *x == h[0])), [true; 2]);
        }
        if same {
          check!(hashes(a), hashes(b));
        }
      }
      Op::Set(i, v, how) => {
        let (old, t) = held[i % held.len()].clone();
        let mut copy = t.clone();
        match how % 3 {
          0 => *copy.as_mut() = v.kind(),
          1 => {
            let k: &mut V = copy.borrow_mut();
            *k = v.kind();
          }
          _ => copy.kind = v.kind(),
        }
        let (r, b): (&V, &V) = (copy.as_ref(), copy.borrow());
        check!((Val::of(r), Val::of(b), Val::of(&copy.kind)), (v.clone(), v.clone(), v.clone()));
        check!(copy == t, old == *v);
        check!((id(&copy), Val::of(&t.kind)), (id(&t), old));
      }
      Op::Convert(i) => {
        let (v, t) = &held[i % held.len()];
        if let Err(e) = conversions(v, &t.kind) {
          return Viol::new("conversion", format!("{}: {e}", label()));
        }
      }
      Op::Show(i, limit) => {
        let (v, t) = &held[i % held.len()];
        let want = v.show();
        check!((t.to_string(), t.kind.to_string()), (want.clone(), want.clone()));
        let n = want.chars().count();
        let limit = limit % (n + 3);
        let mut w = Limited { text: String::new(), left: limit, failed: false };
        let r = write!(w, "{t}");
        if limit < n {
          ctx.count("fault.write_failure", 1);
        }
        check!((r.is_err(), w.text), (limit < n, want.chars().take(limit).collect::<String>()));
      }
      Op::Make(v) => {
        far += 1;
        if let Some(t) = v.from_value(at(&base, far)) {
          check!((Val::of(&t.kind), id(&t)), (v.clone(), far));
          check!(t == v.kind(), true);
          held.push((v.clone(), t));
        }
      }
      Op::Seq(which, nums) => {
        if nums.is_empty() && matches!(which, 0 | 2 | 4..) {
          continue;
        }
        match sequence(*which, nums, &base) {
          Ok([by_ref, by_mut, want]) => check!((by_ref, by_mut), (want.clone(), want)),
          Err(e) => return Viol::new("sequence", format!("{}: {e}", label())),
        }
      }
    }
    // the tables contain what they were given
    ensure!(
      t1.len() == rows.len() && t2.len() == rows.len() && set.len() == rows.len(),
      "table",
      "{}: {} {} {} entries, expected {}",
      label(),
      t1.len(),
      t2.len(),
      set.len(),
      rows.len()
    );
  }
  for (v, t) in &held {
    ensure!(Val::of(&t.kind) == *v, "changed", "a held token changed from {v:?} to {:?}", t.kind);
  }
  for (v, first, n) in &rows {
    let got = t1.get_key_value(&v.kind()).map(|(k, n)| (id(k), *n));
    ensure!(got == Some((*first, *n)), "table", "{v:?}: got {got:?}, expected {first} {n}");
  }
  ensure!(diag::take().is_empty() && base.error_num() == 0, "report", "something was reported");
  Ok(())
}

fn gen_val(r: &mut Rng) -> Val {
  let n = r.below(3);
  match r.below(21) {
    0..=2 => Val::Num([0, 7, u32::MAX][n]),
    3 | 4 => Val::Word(["", "7", "ab"][n].into()),
    5 | 6 => Val::Signed([0, 7, i64::MIN][n]),
    7 | 8 => Val::Text(["", "7", "ab"][n].into()),
    9 => Val::Char(['7', '{', 'é'][n]),
    10 => Val::Flag(n == 0),
    11 => Val::Pair([0, 7][n % 2], [0, 7][r.below(2)]),
    12 => Val::Named([0, 7][n % 2], ['7', 'a'][r.below(2)]),
    13 => Val::Nothing,
    14 => Val::Comma,
    15 => Val::Brace,
    16 => [Val::Big, Val::X][n % 2].clone(),
    17 => Val::Dots,
    18 => Val::Range([0, 7, 255][n]),
    19 => Val::Block([0, 7][n % 2]),
    _ => Val::End,
  }
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let n = r.size(if deep { 100 } else { 30 });
  let fails = [0, 1, 4][r.below(3)];
  let items: Vec<_> = (0..n)
    .map(|_| match r.below(20) < fails {
      true => Item::Fail(r.chance(1, 2)),
      false => Item::Tok(gen_val(r)),
    })
    .collect();
  let near = |r: &mut Rng| match items.get(r.below(n.max(1))) {
    Some(Item::Tok(v)) if r.chance(2, 3) => v.clone(),
    _ => gen_val(r),
  };
  let k = r.range(1, if deep { 150 } else { 50 });
  let ops = (0..k)
    .map(|_| match r.weighted(&[10, 2, 5, 3, 5, 2, 3, 3, 2, 1]) {
      0 => Op::Pull,
      1 => Op::Peek,
      2 => Op::Look(near(r), r.chance(1, 3)),
      3 => Op::Remove(near(r), r.chance(1, 3)),
      4 => Op::Compare(r.below(64), r.below(64)),
      5 => Op::Set(r.below(64), near(r), r.below(3) as u8),
      6 => Op::Convert(r.below(64)),
      7 => Op::Show(r.below(64), r.below(64)),
      8 => Op::Make(gen_val(r)),
      _ => Op::Seq(r.below(5) as u8, (0..r.below(6)).map(|_| r.below(10) as u32).collect()),
    })
    .collect();
  Plan {
    items,
    ops,
    seed: r.next(),
    bits: [0, 1, 3, 64][r.below(4)],
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("T02", 200_000, 10_000_000, gen, run)
    .rule("one run = one scripted tokenizer with failures, one hash function (the one of std with simulated seeds, and one that keeps 0 to 64 bits), and one history of operations on tokens and tables of tokens; non-trivial = at least one scripted token and two operations")
    .real(&[
      "laps::token::{Token, TokenBuffer}",
      "token_kind and token_ast expansions",
      "iteration over sequences of laps::ast",
    ])
    .stub(&["the tokenizer (scripted tokens and failures)", "the writer that tokens are displayed to", "the kernel below std (getrandom)"])]
}
