//! What a dumped automaton looks like.

use simcore::sink::{SimWrite, Take};
use simcore::{ensure, Ctx, Viol};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::io;

const HEAD: &str = "digraph finite_automaton {\n  rankdir = LR\n  node [shape = doublecircle];\n ";
const MIDDLE: &str = "  node [shape = circle];\n";

/// The line of an edge.
pub fn edge(from: usize, sym: &impl Debug, to: usize) -> String {
  format!("  {from} -> {to} [label = \"{sym:?}\"]")
}

/// Judges a complete text.
fn whole(text: &str, finals: &BTreeSet<usize>, mut edges: Vec<String>) -> Result<(), String> {
  let rest = text.strip_prefix(HEAD).ok_or("it starts differently")?;
  let (ids, rest) = rest.split_once(";\n").ok_or("the list of final states does not end")?;
  let mut got: Vec<usize> = Vec::new();
  for id in ids.split_whitespace() {
    got.push(id.parse().map_err(|_| format!("{id} is no state"))?);
  }
  got.sort_unstable();
  if !got.iter().eq(finals) {
    return Err(format!("the final states are {got:?}, not {finals:?}"));
  }
  let rest = rest.strip_prefix(MIDDLE).ok_or("the final states are not followed by the others")?;
  let rest = rest.strip_suffix("}\n").ok_or("it does not end")?;
  let mut got: Vec<&str> = rest.lines().collect();
  got.sort_unstable();
  edges.sort_unstable();
  if got == edges {
    return Ok(());
  }
  match got.iter().find(|g| !edges.iter().any(|e| e == *g)) {
    Some(g) => Err(format!("there is no edge {g:?}")),
    None => Err(match edges.iter().find(|e| !got.contains(&e.as_str())) {
      Some(e) => format!("the edge {e:?} is missing"),
      None => "an edge is dumped another number of times".into(),
    }),
  }
}

/// The final states in any order.
fn line(l: &str) -> Vec<&str> {
  let mut v: Vec<&str> = l.trim_end_matches(';').split(' ').collect();
  if !l.contains("->") {
    v.sort_unstable();
  }
  v
}

/// Judges the text in front of a failure.
fn partial(text: &str, full: &str) -> Result<(), String> {
  if full.starts_with(text) {
    return Ok(());
  }
  let mut lines: Vec<_> = full.lines().map(line).collect();
  let mut got: Vec<&str> = text.split('\n').collect();
  got.pop();
  for g in got {
    match lines.iter().position(|l| *l == line(g)) {
      Some(i) => {
        lines.remove(i);
      }
      None => return Err(format!("it contains {g:?} in front of the failure")),
    }
  }
  Ok(())
}

/// Dumps an automaton into a writer with faults, and into another one.
pub fn check(
  name: &str,
  takes: &[Take],
  finals: &BTreeSet<usize>,
  edges: Vec<String>,
  dump: impl Fn(&mut SimWrite) -> io::Result<()>,
  ctx: &mut Ctx,
) -> Result<(), Viol> {
  let mut w = SimWrite::new(takes);
  let r = dump(&mut w);
  let mut good = SimWrite::new(&[]);
  let g = dump(&mut good);
  judge(name, finals, edges, (r, &w), (g, &good), ctx)
}

/// Judges what was dumped into a writer with faults, and into another one.
pub fn judge(
  name: &str,
  finals: &BTreeSet<usize>,
  edges: Vec<String>,
  (r, w): (io::Result<()>, &SimWrite),
  (g, good): (io::Result<()>, &SimWrite),
  ctx: &mut Ctx,
) -> Result<(), Viol> {
  w.count(ctx);
  ensure!(g.is_ok(), "dump", "{name}: dumping fails with {:?}", g.unwrap_err());
  let full = String::from_utf8_lossy(&good.out).into_owned();
  if let Err(e) = whole(&full, finals, edges.clone()) {
    return Viol::new("dump", format!("{name}: {e}: {full:?}"));
  }
  let text = String::from_utf8_lossy(&w.out).into_owned();
  match (r, w.failed) {
    (Ok(()), None) => {
      if let Err(e) = whole(&text, finals, edges) {
        return Viol::new("dump", format!("{name}: {e}: {text:?}, written in pieces"));
      }
      ctx.count("probe.dumped", 1);
    }
    (Ok(()), Some(k)) => return Viol::new("dump", format!("{name}: the writer failed with {k:?}, which is not returned")),
    (Err(e), None) => return Viol::new("dump", format!("{name}: dumping returns {e:?}, but the writer did not fail")),
    (Err(e), Some(k)) => {
      ensure!(e.kind() == k, "dump", "{name}: the writer failed with {k:?}, but {e:?} is returned");
      if let Err(e) = partial(&text, &full) {
        return Viol::new("dump", format!("{name}: {e}: {text:?}"));
      }
      ctx.count("probe.dump_failed", 1);
    }
  }
  Ok(())
}
