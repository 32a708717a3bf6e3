//! X04: automata that are put together by hand, and closures of their states.

use crate::dump;
use laps_regex::fa::{CachedClosures, Closure, ClosureBuilder, DenseFA, DenseState, FiniteAutomaton, MultiFA, MultiState, State};
use serde::{Deserialize, Serialize};
use simcore::sink::{gen_takes, Take};
use simcore::{ensure, Ctx, Prop, Rng, Viol};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::io;

/// The kind of states.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
  Dense,
  Multi,
  Own,
  /// Symbols or empty edges, closures of states.
  Closures,
}

/// What is done to one of several automata. States are chosen among all that
/// were ever created, by their number.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  New,
  Default,
  Drop(usize),
  AddState(usize),
  AddFinal(usize),
  SetFinal(usize, usize),
  SetNormal(usize, usize),
  Edge(usize, usize, u8, usize),
  InitEdge(usize, u8, usize),
  Union(usize, usize),
  Dump(usize, Vec<Take>),
  /// States that do not exist.
  Missing(usize, usize),
}

/// One question to closures.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
  Epsilon(Vec<usize>),
  Step(Vec<usize>, u8),
  /// Goes on with the last answer.
  Go(u8),
  Forget,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  kind: Kind,
  ops: Vec<Op>,
  asks: Vec<Ask>,
}

/// States of the user: a list of edges, the newest one first.
#[derive(Debug, Default)]
struct Own<S>(Vec<(S, usize)>);

impl<S> State<S> for Own<S> {
  fn new() -> Self {
    Self(Vec::new())
  }
  fn add(&mut self, sym: S, state: usize) {
    self.0.insert(0, (sym, state));
  }
  fn dump<W>(&self, writer: &mut W, id: usize) -> io::Result<()>
  where
    S: Debug,
    W: io::Write,
  {
    for (s, to) in &self.0 {
      writeln!(writer, "{}", dump::edge(id, s, *to))?;
    }
    Ok(())
  }
}

/// A kind of state that can be compared with a list of edges.
trait Known: State<Self::Sym> {
  type Sym: Clone + Ord + Debug;
  fn sym(s: u8) -> Self::Sym;
  /// The edges that are dumped.
  fn kept(edges: &[(Self::Sym, usize)]) -> Vec<(Self::Sym, usize)>;
  fn differs(&self, edges: &[(Self::Sym, usize)]) -> Option<String>;
}

fn set<S: Clone + Ord>(edges: &[(S, usize)]) -> Vec<(S, usize)> {
  edges.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
}

impl Known for DenseState<u8> {
  type Sym = u8;
  fn sym(s: u8) -> u8 {
    s
  }
  fn kept(edges: &[(u8, usize)]) -> Vec<(u8, usize)> {
    edges.to_vec()
  }
  fn differs(&self, edges: &[(u8, usize)]) -> Option<String> {
    if self.outs() != edges {
      return Some(format!("edges {:?}, expected {edges:?}", self.outs()));
    }
    (0..=u8::MAX).step_by(3).chain(edges.iter().map(|e| e.0)).find_map(|s| {
      let (got, want) = (self.next_state(&s), edges.iter().find(|e| e.0 == s).map(|e| e.1));
      (got != want).then(|| format!("symbol {s} leads to {got:?}, expected {want:?}"))
    })
  }
}

fn multi<S: Clone + Ord + Debug + Hash>(state: &MultiState<S>, edges: &[(S, usize)]) -> Option<String> {
  let mut got: Vec<(S, usize)> = state.outs().iter().flat_map(|(s, ids)| ids.iter().map(|i| (s.clone(), *i))).collect();
  got.sort_unstable();
  let want = set(edges);
  (got != want).then(|| format!("edges {got:?}, expected {want:?}"))
}

impl Known for MultiState<char> {
  type Sym = char;
  fn sym(s: u8) -> char {
    char::from(s)
  }
  fn kept(edges: &[(char, usize)]) -> Vec<(char, usize)> {
    set(edges)
  }
  fn differs(&self, edges: &[(char, usize)]) -> Option<String> {
    multi(self, edges)
  }
}

impl Known for MultiState<Option<u8>> {
  type Sym = Option<u8>;
  fn sym(s: u8) -> Option<u8> {
    (s % 3 != 0).then_some(s)
  }
  fn kept(edges: &[(Option<u8>, usize)]) -> Vec<(Option<u8>, usize)> {
    set(edges)
  }
  fn differs(&self, edges: &[(Option<u8>, usize)]) -> Option<String> {
    multi(self, edges)
  }
}

impl Known for Own<String> {
  type Sym = String;
  fn sym(s: u8) -> String {
    format!("{s}")
  }
  fn kept(edges: &[(String, usize)]) -> Vec<(String, usize)> {
    edges.to_vec()
  }
  fn differs(&self, edges: &[(String, usize)]) -> Option<String> {
    (!self.0.iter().eq(edges.iter().rev())).then(|| format!("edges {:?}, expected {edges:?}", self.0))
  }
}

struct Model<S> {
  init: usize,
  finals: BTreeSet<usize>,
  states: BTreeMap<usize, Vec<(S, usize)>>,
}

type Both<St> = (FiniteAutomaton<<St as Known>::Sym, St>, Model<<St as Known>::Sym>);

fn compare<St: Known>(name: &str, (fa, m): &Both<St>) -> Result<(), Viol> {
  let ids: BTreeSet<usize> = fa.states().keys().copied().collect();
  ensure!(ids.iter().eq(m.states.keys()), "states", "{name}: states {ids:?}, expected {:?}", m.states.keys());
  ensure!(fa.init_id() == m.init, "states", "{name}: the initial state is {}, expected {}", fa.init_id(), m.init);
  let finals: BTreeSet<usize> = fa.finals().iter().copied().collect();
  ensure!(finals == m.finals, "finals", "{name}: final states {finals:?}, expected {:?}", m.finals);
  let one = if m.finals.len() == 1 { m.finals.first().copied() } else { None };
  ensure!(fa.final_id() == one, "finals", "{name}: the final state is {:?}, expected {one:?}", fa.final_id());
  for (id, edges) in &m.states {
    match fa.state(*id) {
      None => return Viol::new("states", format!("{name}: state {id} does not exist")),
      Some(s) => {
        if let Some(d) = s.differs(edges) {
          return Viol::new("edges", format!("{name}: state {id} has {d}"));
        }
      }
    }
  }
  if let Some(d) = fa.init().differs(&m.states[&m.init]) {
    return Viol::new("edges", format!("{name}: the initial state has {d}"));
  }
  Ok(())
}

/// Performs all operations, returns the automata that are left.
fn build<St: Known>(plan: &Plan, ctx: &mut Ctx) -> Result<(Vec<Both<St>>, Vec<usize>), Viol> {
  let mut fas: Vec<Both<St>> = Vec::new();
  // all states that were ever created
  let mut ids: Vec<usize> = Vec::new();
  let fresh = |ids: &mut Vec<usize>, id: usize| {
    ensure!(!ids.contains(&id), "states", "the new state {id} existed before");
    ids.push(id);
    Ok(())
  };
  for (n, op) in plan.ops.iter().enumerate() {
    let name = format!("operation {n}, {op:?}");
    let len = fas.len();
    let pick = |i: usize| (len > 0).then(|| i % len);
    let any = |ids: &[usize], i: usize| ids[i % ids.len()];
    let mut touched = None;
    match op {
      Op::New | Op::Default => {
        let fa = if matches!(op, Op::New) { FiniteAutomaton::<St::Sym, St>::new() } else { Default::default() };
        let init = fa.init_id();
        fresh(&mut ids, init)?;
        fas.push((fa, Model { init, finals: BTreeSet::new(), states: BTreeMap::from([(init, Vec::new())]) }));
        touched = Some(fas.len() - 1);
      }
      Op::Drop(i) => {
        if let Some(i) = pick(*i) {
          fas.remove(i);
        }
      }
      Op::AddState(i) | Op::AddFinal(i) => {
        touched = pick(*i);
        if let Some(i) = touched {
          let (fa, m) = &mut fas[i];
          let is_final = matches!(op, Op::AddFinal(_));
          let id = if is_final { fa.add_final_state() } else { fa.add_state() };
          fresh(&mut ids, id)?;
          m.states.insert(id, Vec::new());
          if is_final {
            m.finals.insert(id);
          }
        }
      }
      Op::SetFinal(i, s) | Op::SetNormal(i, s) => {
        touched = pick(*i);
        if let Some(i) = touched {
          let (fa, m) = &mut fas[i];
          let id = any(&ids, *s);
          let exists = m.states.contains_key(&id);
          let got = if matches!(op, Op::SetFinal(..)) {
            if exists {
              m.finals.insert(id);
            }
            fa.set_final_state(id)
          } else {
            m.finals.remove(&id);
            fa.set_normal_state(id)
          };
          ensure!(got == exists, "states", "{name}: {got}, but the state {id} does {}exist", if exists { "" } else { "not " });
          ctx.count(if exists { "probe.known_state" } else { "probe.other_state" }, 1);
        }
      }
      Op::Edge(i, s, sym, to) => {
        touched = pick(*i);
        if let Some(i) = touched {
          let (fa, m) = &mut fas[i];
          let (id, to) = (any(&ids, *s), any(&ids, *to));
          match (fa.state_mut(id), m.states.get_mut(&id)) {
            (Some(s), Some(e)) => {
              s.add(St::sym(*sym), to);
              e.push((St::sym(*sym), to));
            }
            (None, None) => ctx.count("probe.other_state", 1),
            (s, _) => return Viol::new("states", format!("{name}: state {id} does {}exist", if s.is_some() { "" } else { "not " })),
          }
        }
      }
      Op::InitEdge(i, sym, to) => {
        touched = pick(*i);
        if let Some(i) = touched {
          let (fa, m) = &mut fas[i];
          let to = any(&ids, *to);
          fa.init_mut().add(St::sym(*sym), to);
          m.states.get_mut(&m.init).unwrap().push((St::sym(*sym), to));
        }
      }
      Op::Union(i, j) => {
        if let (Some(i), Some(j)) = (pick(*i), pick(*j)) {
          if i != j {
            let (other, o) = fas.remove(j);
            let i = if j < i { i - 1 } else { i };
            let (fa, m) = &mut fas[i];
            fa.union(other);
            m.states.extend(o.states);
            m.finals.extend(o.finals);
            touched = Some(i);
            ctx.nontrivial = true;
          }
        }
      }
      Op::Dump(i, takes) => {
        touched = pick(*i);
        if let Some(i) = touched {
          let (fa, m) = &fas[i];
          let edges = m.states.iter().flat_map(|(id, e)| St::kept(e).into_iter().map(move |(s, to)| dump::edge(*id, &s, to))).collect();
          dump::check(&name, takes, &m.finals, edges, |w| fa.dump(w), ctx)?;
        }
      }
      Op::Missing(i, s) => {
        if let Some(i) = pick(*i) {
          let (fa, m) = &mut fas[i];
          let id = any(&ids, *s);
          let id = if m.states.contains_key(&id) { usize::MAX - id } else { id };
          ensure!(
            fa.state(id).is_none() && fa.state_mut(id).is_none() && !fa.set_final_state(id) && !fa.set_normal_state(id),
            "states",
            "{name}: state {id} exists"
          );
          touched = Some(i);
        }
      }
    }
    ctx.event(n as u64 ^ (touched.map_or(99, |t| fas[t].1.states.len()) as u64) << 32);
    if let Some(t) = touched {
      compare(&name, &fas[t])?;
    }
  }
  // nothing that was done to one of them has changed another one
  for (i, fa) in fas.iter().enumerate() {
    compare(&format!("automaton {i} at the end"), fa)?;
  }
  ctx.count("probe.states", ids.len() as u64);
  Ok((fas, ids))
}

fn closures(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let (fas, ids) = build::<MultiState<Option<u8>>>(plan, ctx)?;
  // the largest one
  let Some((fa, m)) = fas.into_iter().max_by_key(|f| f.1.states.len()) else {
    return Ok(());
  };
  let fa: MultiFA<Option<u8>> = fa;
  let cb = ClosureBuilder::from(fa);
  let close = |mut c: Closure| {
    let mut todo: Vec<usize> = c.iter().copied().collect();
    while let Some(id) = todo.pop() {
      for (s, to) in m.states.get(&id).into_iter().flatten() {
        if s.is_none() && c.insert(*to) {
          todo.push(*to);
        }
      }
    }
    c
  };
  let syms: BTreeSet<u8> = m.states.values().flatten().filter_map(|e| e.0).collect();
  let got: BTreeSet<u8> = cb.symbol_set().into_iter().collect();
  ensure!(got == syms, "symbols", "the symbols are {got:?}, expected {syms:?}");
  let mut cached = CachedClosures::new();
  let mut last = Closure::new();
  let of = |v: &[usize]| -> Closure { v.iter().map(|i| ids[i % ids.len()]).collect() };
  for (n, a) in plan.asks.iter().enumerate() {
    let step = |from: &Closure, s: u8| {
      let next = from.iter().flat_map(|id| m.states.get(id).into_iter().flatten()).filter(|e| e.0 == Some(s)).map(|e| e.1).collect();
      close(next)
    };
    let (got, want) = match a {
      Ask::Epsilon(v) => {
        let got = match v[..] {
          [i] => cb.epsilon_closure(&mut cached, [ids[i % ids.len()]]),
          _ => cb.epsilon_closure(&mut cached, of(v)),
        };
        (got, close(of(v)))
      }
      Ask::Step(v, s) => (cb.state_closure(&mut cached, &of(v), s), step(&of(v), *s)),
      Ask::Go(s) => (cb.state_closure(&mut cached, &last, s), step(&last, *s)),
      Ask::Forget => {
        cached = CachedClosures::new();
        continue;
      }
    };
    ensure!(got == want, "closure", "question {n}, {a:?}: {got:?}, expected {want:?}");
    ctx.count(if got.is_empty() { "probe.empty_closure" } else { "probe.closure" }, 1);
    ctx.nontrivial |= got.len() > 1;
    ctx.event(got.len() as u64);
    last = got;
  }
  Ok(())
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  match plan.kind {
    Kind::Dense => build::<DenseState<u8>>(plan, ctx).map(|r| {
      let _: Vec<(DenseFA<u8>, _)> = r.0;
    }),
    Kind::Multi => build::<MultiState<char>>(plan, ctx).map(|_| ()),
    Kind::Own => build::<Own<String>>(plan, ctx).map(|_| ()),
    Kind::Closures => closures(plan, ctx),
  }
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let kind = *r.pick(&[Kind::Dense, Kind::Multi, Kind::Own, Kind::Closures, Kind::Closures]);
  let syms = r.range(2, 12);
  let mut ops = vec![Op::New];
  let n = r.size(if deep { 120 } else { 60 });
  let fail = r.chance(1, 2);
  // few states, to have many edges between them
  let few = r.range(1, 30);
  // mostly one automaton
  let one = r.chance(1, 2);
  for _ in 0..n {
    let (i, s, t) = (if one { 0 } else { r.below(8) }, r.below(few), r.below(few));
    let sym = if r.chance(1, 12) { r.below(256) } else { r.below(syms) } as u8;
    ops.push(match r.weighted(if one { &[1, 0, 0, 6, 3, 3, 2, 28, 4, 1, 2, 1] } else { &[2, 1, 1, 5, 4, 3, 3, 16, 3, 3, 2, 1] }) {
      0 => Op::New,
      1 => Op::Default,
      2 => Op::Drop(i),
      3 => Op::AddState(i),
      4 => Op::AddFinal(i),
      5 => Op::SetFinal(i, s),
      6 => Op::SetNormal(i, s),
      7 => Op::Edge(i, s, sym, t),
      8 => Op::InitEdge(i, sym, t),
      9 => Op::Union(i, r.below(8)),
      10 => Op::Dump(i, gen_takes(r, 400, fail)),
      _ => Op::Missing(i, s),
    });
  }
  let mut asks = Vec::new();
  if kind == Kind::Closures {
    for _ in 0..r.size(40) {
      let some = |r: &mut Rng| (0..r.below(4)).map(|_| r.below(few)).collect();
      asks.push(match r.below(8) {
        0..=2 => Ask::Epsilon(some(r)),
        3..=4 => Ask::Step(some(r), r.below(syms) as u8),
        5..=6 => Ask::Go(r.below(syms) as u8),
        _ if r.chance(1, 2) => Ask::Forget,
        _ => Ask::Epsilon(vec![r.below(few)]),
      });
    }
  }
  Plan { kind, ops, asks }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("X04", 40_000, 2_000_000, gen, run)
    .isolated()
    .rule("one run = up to 60 (120) operations on several automata with states of one of three kinds, one of them written by the harness, each followed by a comparison with a reference; dumps into writers with fault scripts; in 2 of 5 runs up to 40 questions to the closures of the largest automaton with one cache; non-trivial = two automata were united, or a closure has several states")
    .real(&["laps_regex::fa"])
    .stub(&["getrandom: hash seeds follow from the seed", "writers: short writes, EINTR, errors and full sinks by script"])]
}
