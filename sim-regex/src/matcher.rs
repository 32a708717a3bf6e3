//! X01: compiled matchers under simulated entropy.

use crate::gen::{damage, gen as gen_expr, Palette};
use laps_regex::re::{BytesMatcher, CharsMatcher, Error, RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
use regex_syntax::ParserBuilder;
use serde::{Deserialize, Serialize};
use simcore::regex::{Map, Matcher, Unsupported, DEAD, INIT};
use simcore::{ensure, Ctx, Prop, Rng, Viol};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
  Chars,
  Bytes,
  /// Characters, expressions are parsed as for bytes.
  CharsFromBytes,
  /// Bytes, expressions are parsed as for characters.
  BytesFromChars,
}

/// Expressions, and texts to match.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
  pub mode: Mode,
  pub exprs: Vec<(String, usize)>,
  pub texts: Vec<Vec<u32>>,
  /// Symbols that are fed one by one.
  pub feed: Vec<Vec<u32>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  case: Case,
  /// [`None`]: choose automatically, serially on the simulated machine.
  serial: bool,
}

/// Largest number of states of the reference.
const STATES: usize = 400;

/// Largest alphabet, as atoms.
const ATOMS: usize = 70;

/// Largest number of states for large alphabets.
const WIDE_STATES: usize = 150;
const WIDE_ATOMS: usize = 320;

impl Mode {
  pub fn bytes(self) -> bool {
    matches!(self, Mode::Bytes | Mode::BytesFromChars)
  }
  pub fn utf8(self) -> bool {
    matches!(self, Mode::Chars | Mode::BytesFromChars)
  }
}

/// What the reference says.
pub struct Reference {
  matcher: Result<Matcher, Unsupported>,
  malformed: Option<usize>,
}

impl Reference {
  /// [`None`] if there are too many states or atoms.
  pub fn new(case: &Case, states: usize, atoms: usize) -> Option<Self> {
    let mut hirs = Vec::new();
    let mut malformed = None;
    for (e, tag) in &case.exprs {
      match ParserBuilder::new().utf8(case.mode.utf8()).build().parse(e) {
        Ok(h) => hirs.push((h, *tag)),
        Err(_) => {
          malformed = Some(*tag);
          break;
        }
      }
    }
    let matcher = if hirs.is_empty() {
      Err(Unsupported::Nothing)
    } else {
      Matcher::new(case.mode.bytes(), &hirs)
    };
    if let Ok(r) = &matcher {
      let mut r = r.clone();
      let alphabet = r.alphabet();
      if alphabet.len() > atoms {
        return None;
      }
      let mut i = INIT;
      while i < r.visited() {
        if r.visited() > states {
          return None;
        }
        for a in &alphabet {
          r.step(i, *a);
        }
        i += 1;
      }
    }
    Some(Self { matcher, malformed })
  }
}

/// A matcher for characters or bytes.
pub enum Built {
  C(CharsMatcher<usize>),
  B(BytesMatcher<usize>),
}

impl Built {
  pub fn new(case: &Case, par: Option<bool>) -> Result<Self, Error<usize>> {
    let mut b = RegexBuilder::new().enable_par(par);
    for (e, tag) in &case.exprs {
      b = b.add(e, *tag);
    }
    match case.mode {
      Mode::Chars => b.build().map(Built::C),
      Mode::CharsFromBytes => b.build_bytes().map(Built::C),
      Mode::Bytes => b.build_bytes().map(Built::B),
      Mode::BytesFromChars => b.build().map(Built::B),
    }
  }

  /// Matches a whole text.
  pub fn is_match(&self, t: &[u32]) -> Option<usize> {
    match self {
      Built::C(m) => m.is_match(&t.iter().map(|c| char::of(*c)).collect::<Option<Vec<_>>>()?).copied(),
      Built::B(m) => m.is_match(&t.iter().map(|c| u8::of(*c)).collect::<Option<Vec<_>>>()?).copied(),
    }
  }
}

trait Symbol: Copy + Ord + std::fmt::Debug {
  fn of(c: u32) -> Option<Self>;
}

impl Symbol for char {
  fn of(c: u32) -> Option<Self> {
    char::from_u32(c)
  }
}

impl Symbol for u8 {
  fn of(c: u32) -> Option<Self> {
    u8::try_from(c).ok()
  }
}

/// All symbols at the borders of the atoms of the alphabet.
fn symbols<S: Symbol>(m: &Matcher) -> Vec<(u32, S)> {
  let mut v: Vec<u32> = Vec::new();
  for a in m.alphabet() {
    v.extend([a.saturating_sub(1), a, a + 1]);
  }
  v.extend([0x7f, 0xff, 0xd7ff, 0xe000, 0xffff, 0x10_ffff]);
  v.sort_unstable();
  v.dedup();
  v.into_iter().filter_map(|c| S::of(c).map(|s| (c, s))).collect()
}

fn check<S: Symbol + 'static>(
  plan: &Case,
  ctx: &mut Ctx,
  reference: &mut Matcher,
  mut m: RegexMatcher<S, usize>,
  str_match: impl Fn(&RegexMatcher<S, usize>, &str) -> Option<usize>,
) -> Result<(), Viol> {
  // whole texts
  for t in &plan.texts {
    let Some(seq) = t.iter().map(|c| S::of(*c)).collect::<Option<Vec<S>>>() else {
      continue;
    };
    let want = reference.find(t.iter().copied());
    let got = m.is_match(&seq).copied();
    ctx.log(|| format!("{seq:?}: {got:?}"));
    ensure!(got == want, "match", "{:?}: {seq:?} matches {got:?}, expected {want:?}", plan.exprs);
    ctx.count(if want.is_some() { "probe.match" } else { "probe.no_match" }, 1);
    ctx.nontrivial |= want.is_some() && t.len() > 1;
    // as a string
    let bytes: Vec<u8> = t.iter().map(|c| *c as u8).collect();
    let s = if std::mem::size_of::<S>() == 1 {
      String::from_utf8(bytes).ok()
    } else {
      t.iter().map(|c| char::from_u32(*c)).collect()
    };
    if let Some(s) = s {
      let got = str_match(&m, &s);
      ensure!(got == want, "match", "{:?}: {s:?} matches {got:?} as a string, expected {want:?}", plan.exprs);
    }
  }
  // symbol by symbol
  let init = m.state();
  for t in &plan.feed {
    let mut state = INIT;
    for (i, c) in t.iter().enumerate() {
      let Some(s) = S::of(*c) else {
        continue;
      };
      let next = reference.step(state, *c);
      let old = m.state();
      let got = m.is_accept(&s);
      ensure!(
        got == (next != DEAD),
        "accept",
        "{:?}: symbol {i} of {t:x?} is {}accepted",
        plan.exprs,
        if got { "" } else { "not " }
      );
      if next == DEAD {
        ensure!(m.state() == old, "accept", "{:?}: rejecting symbol {i} of {t:x?} changes the state", plan.exprs);
        ctx.count("probe.rejected", 1);
      } else {
        state = next;
        ctx.count("probe.accepted", 1);
      }
      let want = reference.tag(state);
      ensure!(
        m.is_final().copied() == want && m.is_state_final(m.state()).copied() == want,
        "accept",
        "{:?}: {:?} after symbol {i} of {t:x?}, expected {want:?}",
        plan.exprs,
        m.is_final()
      );
    }
    m.reset();
    ensure!(m.state() == init, "accept", "{:?}: reset leads to another state", plan.exprs);
  }
  // the transition table, all states of both sides
  let syms = symbols::<S>(reference);
  let table = StateTransTable::from(m);
  let n = table.num_states();
  ensure!(table.init_id() == init, "table", "{:?}: the initial state of the table differs", plan.exprs);
  ensure!(
    table.next_state(n, &syms[0].1).is_none() && table.is_final(n).is_none() && table.next_state(usize::MAX, &syms[0].1).is_none(),
    "table",
    "{:?}: the table has more than {n} states",
    plan.exprs
  );
  let mut seen: Map<(usize, usize), ()> = Map::default();
  let mut todo = vec![(INIT, table.init_id(), Vec::new())];
  seen.insert((INIT, table.init_id()), ());
  while let Some((r, s, path)) = todo.pop() {
    let (want, got) = (reference.tag(r), table.is_final(s).copied());
    ensure!(got == want, "match", "{:?}: {path:x?} matches {got:?} by the table, expected {want:?}", plan.exprs);
    for (c, sym) in &syms {
      let next = reference.step(r, *c);
      let got = table.next_state(s, sym);
      ensure!(
        got.is_some() == (next != DEAD),
        "accept",
        "{:?}: {c:#x} behind {path:x?} leads to {got:?}",
        plan.exprs
      );
      // as documented for the table itself
      let class = table.sym_map().range(sym..).next().filter(|(_, (l, _))| l <= sym).map(|(_, (_, i))| *i);
      let raw = class.map(|i| table.table()[i * n + s]).filter(|x| *x < n);
      ensure!(raw == got, "table", "{:?}: {c:#x} behind {path:x?} leads to {got:?}, but to {raw:?} in the table", plan.exprs);
      if let Some(g) = got {
        ensure!(g < n, "table", "{:?}: state {g} of {n}", plan.exprs);
        if seen.insert((next, g), ()).is_none() && seen.len() < 20_000 {
          let mut p = path.clone();
          p.push(*c);
          todo.push((next, g, p));
        }
      }
    }
  }
  ctx.event(seen.len() as u64);
  ctx.count("probe.product_states", seen.len() as u64);
  ctx.count("probe.table_states", n as u64);
  Ok(())
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let reference = Reference::new(&plan.case, STATES, ATOMS).or_else(|| Reference::new(&plan.case, WIDE_STATES, WIDE_ATOMS));
  let Some(reference) = reference else {
    ctx.count("probe.too_large", 1);
    return Ok(());
  };
  let built = Built::new(&plan.case, plan.serial.then_some(false));
  judge(&plan.case, reference, built, ctx)
}

/// Compares a matcher with the reference.
pub fn judge(case: &Case, reference: Reference, built: Result<Built, Error<usize>>, ctx: &mut Ctx) -> Result<(), Viol> {
  let Reference { matcher, malformed } = reference;
  let built = match built {
    Err(e) => {
      let text = format!("{e}");
      ctx.log(|| text.clone());
      ensure!(!text.is_empty(), "error", "{:?}: an error without a message", case.exprs);
      match &e {
        Error::EmptyBuilder => {
          ensure!(case.exprs.is_empty(), "error", "{:?}: {text}", case.exprs);
          ctx.count("probe.empty", 1);
        }
        Error::Regex(_, t) => {
          ensure!(malformed == Some(*t), "error", "{:?}: expression {t} is called malformed: {text}", case.exprs);
          ctx.count("probe.malformed", 1);
        }
        Error::Mir(_) => {
          ensure!(matcher.is_err(), "error", "{:?}: rejected: {text}", case.exprs);
          ctx.count("probe.unsupported", 1);
        }
      }
      return Ok(());
    }
    Ok(b) => b,
  };
  ensure!(!case.exprs.is_empty(), "error", "a matcher was built from nothing");
  ensure!(malformed.is_none(), "error", "{:?}: malformed expression accepted", case.exprs);
  let mut reference = match matcher {
    Ok(r) => r,
    Err(u) => return Viol::new("error", format!("{:?}: accepted in spite of {u:?}", case.exprs)),
  };
  ctx.count(if case.mode.bytes() { "probe.bytes" } else { "probe.chars" }, 1);
  match built {
    Built::C(m) => check(case, ctx, &mut reference, m, |m, s| m.is_str_match(s).copied()),
    Built::B(m) => check(case, ctx, &mut reference, m, |m, s| m.is_str_match(s).copied()),
  }
}

/// Generates a case over up to `most` symbols that are all different.
pub fn gen_wide(r: &mut Rng, most: usize, cheap: bool) -> Case {
  let bytes = r.chance(1, 2);
  let mode = if bytes { Mode::Bytes } else { Mode::Chars };
  let n = if cheap { r.range(most / 2, most) } else { r.range(20, most) };
  // symbols next to each other, or with gaps
  let gap = if bytes || r.chance(1, 2) { 1 } else { r.range(1, 3) as u32 };
  let first = if bytes {
    r.range(0, 255 - n) as u32
  } else {
    *r.pick(&[0x21, 0x61, 0x3b1, 0x4e00, 0xd7ff - 40, 0x1_0000 - 50, 0x1f600])
  };
  let mut all: Vec<u32> = (first..).step_by(gap as usize).filter(|c| char::from_u32(*c).is_some()).take(n).collect();
  let text = |c: u32| {
    if bytes {
      format!("(?-u:\\x{c:02x})")
    } else {
      format!("\\u{{{c:x}}}")
    }
  };
  let class = |a: u32, b: u32| {
    if bytes {
      format!("(?-u:[\\x{a:02x}-\\x{b:02x}])")
    } else {
      format!("[\\u{{{a:x}}}-\\u{{{b:x}}}]")
    }
  };
  let (a, b) = (all[0], all[all.len() - 1]);
  for i in 1..all.len() {
    let j = r.below(i + 1);
    all.swap(i, j);
  }
  let mut exprs: Vec<(String, usize)> = Vec::new();
  // words without common symbols
  let mut words: Vec<String> = Vec::new();
  while !all.is_empty() {
    let k = if cheap { 1 } else { r.range(1, 3).min(all.len()) };
    words.push(all.drain(..k).map(text).collect());
  }
  match r.below(3) {
    // one expression with all words, one per word, or something between
    // (groups keep single symbols apart)
    0 => exprs.push((format!("({})", words.join(")|(")), r.below(9))),
    1 => exprs.extend(words.into_iter().map(|w| (w, r.below(40)))),
    _ => {
      let k = r.range(2, 8);
      exprs.extend(words.chunks(k).map(|w| (w.join("|"), r.below(40))));
    }
  }
  if r.chance(2, 3) {
    let e = class(a, b);
    let e = match r.below(if cheap { 1 } else { 3 }) {
      0 => e,
      1 => format!("{e}+"),
      _ => format!("{e}{}*", class(a, a + (b - a) / 2)),
    };
    exprs.insert(r.below(exprs.len() + 1), (e, r.below(60)));
  }
  with_texts(r, mode, exprs)
}

/// Generates a case with up to `exprs` expressions.
pub fn gen_case(r: &mut Rng, exprs: usize, depth: usize) -> Case {
  let mode = [Mode::Chars, Mode::Bytes, Mode::CharsFromBytes, Mode::BytesFromChars][r.weighted(&[10, 8, 1, 2])];
  let bytes = matches!(mode, Mode::Bytes | Mode::BytesFromChars);
  let palette = Palette::new(r, bytes);
  let n = match r.below(10) {
    0..=2 => 1,
    3 if r.chance(1, 10) => 0,
    _ => r.range(1, exprs),
  };
  let depth = r.range(0, depth);
  let mut exprs: Vec<(String, usize)> = Vec::new();
  for _ in 0..n {
    let e = match r.below(12) {
      0 if !exprs.is_empty() => r.pick(&exprs).0.clone(),
      1 => gen_expr(r, &palette, 0),
      _ => gen_expr(r, &palette, depth),
    };
    // tags out of order, sometimes the same one
    exprs.push((e, r.below(9)));
  }
  if r.chance(1, 16) && !exprs.is_empty() {
    let i = r.below(exprs.len());
    exprs[i].0 = damage(r, &exprs[i].0.clone());
    // the malformed one can be identified
    exprs.iter_mut().enumerate().for_each(|(i, e)| e.1 = 20 - i);
  }
  with_texts(r, mode, exprs)
}

fn with_texts(r: &mut Rng, mode: Mode, exprs: Vec<(String, usize)>) -> Case {
  let bytes = mode.bytes();
  let hirs: Option<Vec<_>> =
    exprs.iter().map(|(e, t)| ParserBuilder::new().utf8(mode.utf8()).build().parse(e).ok().map(|h| (h, *t))).collect();
  let mut texts = vec![Vec::new()];
  let mut feed = Vec::new();
  if let Some(Ok(mut m)) = hirs.filter(|h| !h.is_empty()).map(|h| Matcher::new(bytes, &h)) {
    for _ in 0..r.range(2, 12) {
      let mut t = m.text(r, 30);
      if r.chance(1, 3) && !t.is_empty() {
        let at = r.below(t.len());
        match r.below(3) {
          0 => t[at] = m.symbol(r),
          1 => t.truncate(at),
          _ => t.insert(at, m.symbol(r)),
        }
      }
      texts.push(t);
    }
    for _ in 0..r.range(1, 4) {
      let mut t = Vec::new();
      for _ in 0..r.range(1, 3) {
        t.extend(m.text(r, 12));
        if r.chance(1, 2) {
          t.push(m.symbol(r));
        }
      }
      feed.push(t);
    }
  }
  Case { mode, exprs, texts, feed }
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  Plan {
    case: if r.chance(1, 100) { gen_wide(r, 120, false) } else { gen_case(r, if deep { 8 } else { 6 }, if deep { 4 } else { 3 }) },
    serial: r.chance(2, 3),
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("X01", 32_000, 1_500_000, gen, run)
    .isolated()
    .rule("one run = up to 6 (8) random tagged expressions (also malformed and unsupported ones) for characters or bytes, one entropy stream for all hash maps, about 10 texts, 3 sequences of single symbols, and a walk through all pairs of states of the matcher and the reference; non-trivial = some text of more than one symbol matches")
    .real(&["laps_regex (re, mir, nfa, fa, dfa, table), constructed serially"])
    .stub(&["getrandom: hash seeds follow from the seed", "sched_getaffinity: one processor"])
    .assumptions(&["the syntax tree of regex-syntax is right", "expressions whose reference has at most 400 states and 70 classes of symbols, or 150 states and 320 classes"])]
}
