//! X03: every stage of the construction, for symbols and tags of any type.

use crate::dump;
use laps_regex::dfa::DFA;
use laps_regex::mir::{Mir, SymbolOp};
use laps_regex::nfa::NFA;
use laps_regex::table::StateTransTable;
use serde::{Deserialize, Serialize};
use simcore::regex::{Matcher, Tree, DEAD, INIT};
use simcore::sink::{gen_takes, SimWrite, Take};
use simcore::{ensure, Ctx, Prop, Rng, Viol};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Syms {
  Byte,
  Char,
  Odd,
  Word,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  syms: Syms,
  exprs: Vec<(Tree, usize)>,
  /// Sizes of groups of neighbouring expressions, which get an alternation of
  /// their own.
  groups: Vec<usize>,
  /// How often the expression is optimized.
  optimize: usize,
  /// By `new` or by `from`.
  from: bool,
  nfa_takes: Vec<Take>,
  dfa_takes: Vec<Take>,
}

/// Largest number of states and atoms of the reference.
const STATES: usize = 120;
const ATOMS: usize = 48;
/// Largest number of pairs of states.
const PAIRS: usize = 4_000;

trait Symbol: Clone + Ord + Hash + Debug + Sync + SymbolOp + 'static {
  /// Number of the last symbol.
  const MAX: u32;
  fn at(i: u32) -> Self;
}

impl Symbol for u8 {
  const MAX: u32 = 0xff;
  fn at(i: u32) -> Self {
    i as u8
  }
}

impl Symbol for char {
  const MAX: u32 = 0x10_f7ff;
  fn at(i: u32) -> Self {
    char::from_u32(if i < 0xd800 { i } else { i + 0x800 }).unwrap()
  }
}

/// Odd numbers from -41 to 41.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Odd(i32);

impl SymbolOp for Odd {
  fn prev(&self) -> Option<Self> {
    (self.0 > -41).then(|| Self(self.0 - 2))
  }
  fn next(&self) -> Option<Self> {
    (self.0 < 41).then(|| Self(self.0 + 2))
  }
}

impl Symbol for Odd {
  const MAX: u32 = 41;
  fn at(i: u32) -> Self {
    Self(2 * i as i32 - 41)
  }
}

/// Words from "a" to "z".
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Word(Box<str>);

impl Word {
  fn number(&self) -> u32 {
    (self.0.as_bytes()[0] - b'a') as u32
  }
}

impl SymbolOp for Word {
  fn prev(&self) -> Option<Self> {
    self.number().checked_sub(1).map(Self::at)
  }
  fn next(&self) -> Option<Self> {
    (self.number() < Self::MAX).then(|| Self::at(self.number() + 1))
  }
}

impl Symbol for Word {
  const MAX: u32 = 25;
  fn at(i: u32) -> Self {
    Self(char::from(b'a' + i as u8).to_string().into())
  }
}

trait Tag: Clone + Hash + Ord + Debug + 'static {
  fn at(i: usize) -> Self;
}

impl Tag for usize {
  fn at(i: usize) -> Self {
    i
  }
}

impl Tag for Box<str> {
  fn at(i: usize) -> Self {
    format!("t{i:02}").into()
  }
}

fn mir<S: Symbol, T>(t: &Tree) -> Mir<S, T> {
  match t {
    Tree::Eps => Mir::Empty,
    Tree::Class(rs) => Mir::Ranges(rs.iter().map(|(l, r)| (S::at(*l), S::at(*r))).collect()),
    Tree::Cat(v) => Mir::Concat(v.iter().map(mir).collect()),
    Tree::Alt(v) => Mir::Alter(v.iter().map(|t| (mir(t), None)).collect()),
    Tree::Star(t) => Mir::Kleene(Box::new(mir(t))),
  }
}

/// The expression that has all the others as alternatives.
fn root<S: Symbol, T: Tag>(plan: &Plan) -> Mir<S, T> {
  let mut all: Vec<(Mir<S, T>, Option<T>)> = plan.exprs.iter().map(|(t, tag)| (mir(t), Some(T::at(*tag)))).collect();
  let mut v = Vec::new();
  for n in &plan.groups {
    let n = (*n).min(all.len());
    if n > 0 {
      v.push((Mir::Alter(all.drain(..n).collect()), None));
    }
  }
  v.extend(all);
  Mir::Alter(v)
}

fn has_nothing(t: &Tree) -> bool {
  match t {
    Tree::Eps => false,
    Tree::Class(rs) => rs.is_empty(),
    Tree::Alt(v) => v.is_empty() || v.iter().any(has_nothing),
    Tree::Cat(v) => v.iter().any(has_nothing),
    Tree::Star(t) => has_nothing(t),
  }
}

/// Walks through all pairs of states of the reference and an automaton.
/// Returns the states of the automaton.
fn walk<St: Clone + Ord + Debug, S: Symbol, T: Tag>(
  name: &str,
  reference: &mut Matcher,
  syms: &[(u32, S)],
  init: St,
  next: impl Fn(&St, &S) -> Result<Option<St>, Viol>,
  tag: impl Fn(&St) -> Option<T>,
  ctx: &mut Ctx,
) -> Result<BTreeSet<St>, Viol> {
  let mut seen = BTreeSet::from([(INIT, init.clone())]);
  let mut todo = vec![(INIT, init, Vec::new())];
  while let Some((r, s, path)) = todo.pop() {
    let (want, got) = (reference.tag(r).map(T::at), tag(&s));
    ensure!(got == want, "match", "{name}: {path:?} matches {got:?}, expected {want:?}");
    for (c, sym) in syms {
      let n = reference.step(r, *c);
      let got = next(&s, sym)?;
      ensure!(
        got.is_some() == (n != DEAD),
        "accept",
        "{name}: {sym:?} behind {path:?} is {}accepted",
        if got.is_some() { "" } else { "not " }
      );
      if let Some(g) = got {
        if seen.len() < PAIRS && seen.insert((n, g.clone())) {
          let mut p = path.clone();
          p.push(sym.clone());
          todo.push((n, g, p));
        }
      }
    }
  }
  ctx.count("probe.pairs", seen.len() as u64);
  ctx.event(seen.len() as u64);
  Ok(seen.into_iter().map(|p| p.1).collect())
}

fn within<S: Ord>(rs: &[(S, S)], s: &S) -> bool {
  rs.iter().any(|(l, r)| l <= s && s <= r)
}

fn check_nfa<S: Symbol, T: Tag>(
  name: &str,
  nfa: NFA<S, T>,
  takes: &[Take],
  reference: &mut Matcher,
  syms: &[(u32, S)],
  ctx: &mut Ctx,
) -> Result<(), Viol> {
  // dumped first: the parts can not be put together again
  let (mut faulty, mut good) = (SimWrite::new(takes), SimWrite::new(&[]));
  let (res, res_good) = (nfa.dump(&mut faulty), nfa.dump(&mut good));
  let (fa, tags) = nfa.into_fa_tags();
  let finals: BTreeSet<usize> = fa.finals().iter().copied().collect();
  let mut edges = Vec::new();
  let (mut empty, mut normal): (BTreeMap<usize, Vec<usize>>, BTreeMap<usize, Vec<(Vec<(S, S)>, usize)>>) = Default::default();
  for (id, state) in fa.states() {
    for (s, to) in state.outs() {
      for to in to {
        ensure!(fa.state(*to).is_some(), "states", "{name}: an edge leads to the state {to}, which does not exist");
        edges.push(dump::edge(*id, s, *to));
        match s {
          None => empty.entry(*id).or_default().push(*to),
          Some(s) => normal.entry(*id).or_default().push((s.clone(), *to)),
        }
      }
    }
  }
  ensure!(
    tags.keys().chain(&finals).all(|id| fa.state(*id).is_some()),
    "states",
    "{name}: a tagged or final state does not exist"
  );
  dump::judge(name, &finals, edges.clone(), (res, &faulty), (res_good, &good), ctx)?;
  dump::check(name, takes, &finals, edges, |w| fa.dump(w), ctx)?;
  let close = |mut set: BTreeSet<usize>| {
    let mut todo: Vec<usize> = set.iter().copied().collect();
    while let Some(id) = todo.pop() {
      for to in empty.get(&id).into_iter().flatten() {
        if set.insert(*to) {
          todo.push(*to);
        }
      }
    }
    set
  };
  walk(
    name,
    reference,
    syms,
    close([fa.init_id()].into()),
    |set, s| {
      let next: BTreeSet<usize> = set
        .iter()
        .flat_map(|id| normal.get(id).into_iter().flatten())
        .filter(|(rs, _)| within(rs, s))
        .map(|(_, to)| *to)
        .collect();
      Ok((!next.is_empty()).then(|| close(next)))
    },
    |set: &BTreeSet<usize>| set.iter().filter_map(|id| tags.get(id)).min().cloned(),
    ctx,
  )?;
  ctx.count("probe.nfa_states", fa.states().len() as u64);
  Ok(())
}

/// Returns the number of states.
fn check_dfa<S: Symbol, T: Tag>(
  name: &str,
  dfa: DFA<S, T>,
  takes: &[Take],
  reference: &mut Matcher,
  syms: &[(u32, S)],
  ctx: &mut Ctx,
) -> Result<usize, Viol> {
  let (mut faulty, mut good) = (SimWrite::new(takes), SimWrite::new(&[]));
  let (res, res_good) = (dfa.dump(&mut faulty), dfa.dump(&mut good));
  let (fa, tags) = dfa.into_fa_tags();
  let finals: BTreeSet<usize> = fa.finals().iter().copied().collect();
  let tagged: BTreeSet<usize> = tags.keys().copied().collect();
  ensure!(finals == tagged, "states", "{name}: the final states are {finals:?}, but {tagged:?} have tags");
  let mut edges = Vec::new();
  for (id, state) in fa.states() {
    for (s, to) in state.outs() {
      ensure!(fa.state(*to).is_some(), "states", "{name}: an edge leads to the state {to}, which does not exist");
      edges.push(dump::edge(*id, s, *to));
    }
  }
  dump::judge(name, &finals, edges.clone(), (res, &faulty), (res_good, &good), ctx)?;
  dump::check(name, takes, &finals, edges, |w| fa.dump(w), ctx)?;
  let next = |id: &usize, s: &S| {
    let mut found: Option<(&Vec<(S, S)>, usize)> = None;
    for (rs, to) in fa.state(*id).unwrap().outs() {
      if within(rs, s) {
        if let Some((other, _)) = found {
          return Viol::new("deterministic", format!("{name}: {s:?} is in {other:?} and in {rs:?}, both leave the state {id}"));
        }
        found = Some((rs, *to));
        let by_sym = fa.state(*id).unwrap().next_state(rs);
        ensure!(by_sym == Some(*to), "deterministic", "{name}: {rs:?} leads to {to} and to {by_sym:?}");
      }
    }
    Ok(found.map(|f| f.1))
  };
  let seen = walk(name, reference, syms, fa.init_id(), next, |id: &usize| tags.get(id).cloned(), ctx)?;
  let n = fa.states().len();
  ensure!(seen.len() == n, "minimal", "{name}: only {} of {n} states can be reached", seen.len());
  // no two states are equivalent
  let ids: Vec<usize> = seen.into_iter().collect();
  let place = |id: usize| ids.binary_search(&id).unwrap();
  let mut step = Vec::new();
  for id in &ids {
    let mut row = Vec::new();
    for (_, s) in syms {
      row.push(next(id, s)?.map(place));
    }
    step.push(row);
  }
  let all_tags: BTreeSet<&T> = tags.values().collect();
  let mut class: Vec<usize> = ids
    .iter()
    .map(|id| tags.get(id).map_or(0, |t| 1 + all_tags.iter().position(|x| *x == t).unwrap()))
    .collect();
  let mut count = class.iter().collect::<BTreeSet<_>>().len();
  loop {
    let mut keys: BTreeMap<(usize, Vec<Option<usize>>), usize> = BTreeMap::new();
    let mut new = Vec::new();
    for (i, row) in step.iter().enumerate() {
      let key = (class[i], row.iter().map(|n| n.map(|n| class[n])).collect());
      let k = keys.len();
      new.push(*keys.entry(key).or_insert(k));
    }
    class = new;
    if keys.len() == count {
      break;
    }
    count = keys.len();
  }
  ensure!(count == n, "minimal", "{name}: {n} states, {count} are enough");
  ctx.count("probe.dfa_states", n as u64);
  Ok(n)
}

fn run_as<S: Symbol, T: Tag>(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let nothing = plan.exprs.is_empty() || plan.exprs.iter().any(|e| has_nothing(&e.0));
  let mir = root::<S, T>(plan);
  ctx.log(|| format!("{mir:?}"));
  if nothing {
    let r = mir.optimize();
    ensure!(r.is_err(), "error", "accepted although a part matches nothing: {:?}", plan.exprs);
    ensure!(!r.unwrap_err().to_string().is_empty(), "error", "an error without a message");
    ctx.count("probe.nothing", 1);
    return Ok(());
  }
  let Ok(mut reference) = Matcher::of_trees(S::MAX, &plan.exprs) else {
    ctx.count("probe.malformed_plan", 1);
    return Ok(());
  };
  let alphabet = reference.alphabet();
  if alphabet.len() > ATOMS {
    ctx.count("probe.too_large", 1);
    return Ok(());
  }
  let mut i = INIT;
  while i < reference.visited() {
    if reference.visited() > STATES {
      ctx.count("probe.too_large", 1);
      return Ok(());
    }
    alphabet.iter().for_each(|a| {
      reference.step(i, *a);
    });
    i += 1;
  }
  // both ends of every atom
  let mut ends: BTreeSet<u32> = alphabet.iter().copied().collect();
  ends.extend(alphabet.iter().filter_map(|a| a.checked_sub(1)));
  ends.insert(S::MAX);
  let syms: Vec<(u32, S)> = ends.into_iter().map(|i| (i, S::at(i))).collect();
  let syms = &syms[..];
  // without optimisation
  let r = &mut reference;
  check_nfa("NFA of the plain expression", NFA::new(mir.clone()), &plan.nfa_takes, r, syms, ctx)?;
  let mut opt = mir;
  for i in 0..plan.optimize {
    opt = match opt.optimize() {
      Ok(m) => m,
      Err(e) => return Viol::new("error", format!("optimisation {i} of {:?} fails: {e}", plan.exprs)),
    };
    ctx.log(|| format!("{opt:?}"));
  }
  let nfa = || if plan.from { NFA::from(opt.clone()) } else { NFA::new(opt.clone()) };
  let dfa = || if plan.from { DFA::from(nfa()) } else { DFA::new(nfa(), Some(false)) };
  check_nfa("NFA", nfa(), &plan.nfa_takes, r, syms, ctx)?;
  let n = check_dfa("DFA", dfa(), &plan.dfa_takes, r, syms, ctx)?;
  let table = if plan.from { StateTransTable::from(dfa()) } else { StateTransTable::new(dfa()) };
  ensure!(table.num_states() == n, "table", "the table has {} states, the DFA {n}", table.num_states());
  let seen = walk("table", r, syms, table.init_id(), |id: &usize, s| Ok(table.next_state(*id, s)), |id| table.is_final(*id).cloned(), ctx)?;
  ensure!(seen.iter().all(|id| *id < n), "table", "a state of the table is not below {n}");
  for (id, t) in table.tags() {
    ensure!(seen.contains(id) && table.is_final(*id) == Some(t), "table", "state {id} is final, but can not be reached");
  }
  ctx.nontrivial |= n > 2;
  Ok(())
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  if plan.optimize == 0 {
    return Ok(());
  }
  match plan.syms {
    Syms::Byte => run_as::<u8, usize>(plan, ctx),
    Syms::Char => run_as::<char, Box<str>>(plan, ctx),
    Syms::Odd => run_as::<Odd, usize>(plan, ctx),
    Syms::Word => run_as::<Word, Box<str>>(plan, ctx),
  }
}

/// Where the ranges of a case lie.
struct Window {
  max: u32,
  first: u32,
  len: u32,
}

fn gen_class(r: &mut Rng, w: &Window) -> Tree {
  let at = |r: &mut Rng| (w.first + r.below(w.len as usize) as u32).min(w.max);
  let n = [1, 1, 1, 2, 3, 5][r.below(6)];
  let mut v = Vec::new();
  for _ in 0..n {
    let (a, b) = (at(r), at(r));
    v.push(match r.below(8) {
      0..=3 => (a, a),
      4 => (a, (a + 1).min(w.max)),
      5 if r.chance(1, 3) => (a, w.max),
      6 if r.chance(1, 3) => (0, a),
      _ => (a.min(b), a.max(b)),
    });
    if r.chance(1, 8) {
      let x = *r.pick(&v);
      v.push(x);
    }
  }
  Tree::Class(v)
}

fn gen_tree(r: &mut Rng, w: &Window, known: &mut Vec<Tree>, depth: usize) -> Tree {
  if !known.is_empty() && r.chance(1, 8) {
    return r.pick(known).clone();
  }
  let t = match r.below(if depth == 0 { 6 } else { 14 }) {
    0 => Tree::Eps,
    1..=5 => gen_class(r, w),
    6..=8 => {
      let n = r.range(1, 4);
      Tree::Cat((0..n).map(|_| gen_tree(r, w, known, depth - 1)).collect())
    }
    9..=11 => {
      let n = r.range(1, 4);
      let mut v: Vec<Tree> = (0..n).map(|_| gen_tree(r, w, known, depth - 1)).collect();
      if r.chance(1, 3) {
        // a common start, or nothing else
        let x = gen_tree(r, w, known, 0);
        v = v
          .into_iter()
          .map(|t| match t {
            Tree::Cat(mut u) => {
              u.insert(0, x.clone());
              Tree::Cat(u)
            }
            t => Tree::Cat(vec![x.clone(), t]),
          })
          .collect();
      }
      Tree::Alt(v)
    }
    _ => Tree::Star(Box::new(gen_tree(r, w, known, depth - 1))),
  };
  known.push(t.clone());
  t
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let syms = *r.pick(&[Syms::Byte, Syms::Char, Syms::Odd, Syms::Word]);
  let max = match syms {
    Syms::Byte => <u8 as Symbol>::MAX,
    Syms::Char => <char as Symbol>::MAX,
    Syms::Odd => Odd::MAX,
    Syms::Word => Word::MAX,
  };
  let len = r.range(2, 16) as u32;
  let first = match r.below(4) {
    0 => 0,
    1 => max.saturating_sub(len - 1),
    2 if syms == Syms::Char => 0xd800 - len / 2,
    _ => r.below(max as usize) as u32,
  };
  let w = Window { max, first, len };
  let n = match r.below(8) {
    0..=2 => 1,
    _ => r.range(1, if deep { 7 } else { 5 }),
  };
  let mut known = Vec::new();
  let mut exprs: Vec<(Tree, usize)> = Vec::new();
  for _ in 0..n {
    let depth = r.range(0, if deep { 4 } else { 3 });
    let t = gen_tree(r, &w, &mut known, depth);
    exprs.push((t, r.below(9)));
  }
  if r.chance(1, 30) {
    // a part that matches nothing
    let bad = if r.chance(1, 2) { Tree::Class(Vec::new()) } else { Tree::Alt(Vec::new()) };
    let i = r.below(exprs.len());
    let t = exprs[i].0.clone();
    exprs[i].0 = match r.below(4) {
      0 => bad,
      1 => Tree::Cat(vec![t, bad]),
      2 => Tree::Alt(vec![bad, t]),
      _ => Tree::Star(Box::new(bad)),
    };
  }
  let groups = if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| r.range(0, 3)).collect() } else { Vec::new() };
  let fail = r.chance(1, 2);
  Plan {
    syms,
    exprs,
    groups,
    optimize: [1, 1, 1, 2, 3][r.below(5)],
    from: r.chance(1, 2),
    nfa_takes: gen_takes(r, 1200, fail),
    dfa_takes: gen_takes(r, 600, fail),
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("X03", 20_000, 1_000_000, gen, run)
    .isolated()
    .rule("one run = up to 5 (7) random tagged expression trees over bytes, characters, odd numbers or words, one entropy stream for all hash maps; the NFA of the plain expression, the expression optimized 1 to 3 times, its NFA, its DFA and its table are each walked through together with the reference, and both automata are dumped into a writer with a fault script; non-trivial = the DFA has more than two states")
    .real(&["laps_regex (mir, nfa, fa, dfa, table), constructed serially"])
    .stub(&["getrandom: hash seeds follow from the seed", "sched_getaffinity: one processor", "writers: short writes, EINTR, errors and full sinks by script"])
    .assumptions(&["expressions whose reference has at most 120 states and 48 classes of symbols", "tags only at the alternatives on top, as RegexBuilder puts them"])]
}
