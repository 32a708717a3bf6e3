//! Reference matcher for regular expressions: Brzozowski derivatives over
//! hash-consed expressions. Shares nothing with the code under test but the
//! syntax tree of `regex-syntax`.

use crate::rng::Rng;
use regex_syntax::hir::{Class, Hir, HirKind};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

/// A hasher without random keys: the harness must not take entropy that is
/// meant for the code under test.
#[derive(Default, Clone)]
pub struct Fixed(u64);

impl Hasher for Fixed {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.write_u64(*b as u64);
    }
  }
  fn write_u8(&mut self, i: u8) {
    self.write_u64(i as u64)
  }
  fn write_u32(&mut self, i: u32) {
    self.write_u64(i as u64)
  }
  fn write_usize(&mut self, i: usize) {
    self.write_u64(i as u64)
  }
  fn write_u64(&mut self, i: u64) {
    self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
  }
}

pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fixed>>;

type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Node {
  /// Nothing.
  Fail,
  /// The empty text.
  Eps,
  Class(Vec<(u32, u32)>),
  Cat(Id, Id),
  Alt(Vec<Id>),
  Star(Id),
}

const FAIL: Id = 0;
const EPS: Id = 1;

/// Why an expression is not supported.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Unsupported {
  Look,
  Lazy,
  /// A class without any symbol.
  Nothing,
  /// A class of characters in a matcher for bytes.
  Unicode,
  /// Text that is no valid UTF-8 in a matcher for characters.
  Utf8,
}

/// An expression over numbered symbols.
#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "plans", derive(serde::Serialize, serde::Deserialize))]
pub enum Tree {
  Eps,
  Class(Vec<(u32, u32)>),
  Cat(Vec<Tree>),
  Alt(Vec<Tree>),
  Star(Box<Tree>),
}

/// A set of tagged expressions.
#[derive(Clone)]
pub struct Matcher {
  bytes: bool,
  /// The largest symbol.
  max: u32,
  nodes: Vec<Node>,
  nullable: Vec<bool>,
  ids: Map<Node, Id>,
  memo: Map<(Id, u32), Id>,
  /// Left endpoints of the atoms of the alphabet.
  atoms: Vec<u32>,
  /// Pairs of expressions and tags.
  states: Vec<Vec<(Id, usize)>>,
  state_ids: Map<Vec<(Id, usize)>, usize>,
  next: Map<(usize, u32), usize>,
}

/// The state that accepts nothing any more.
pub const DEAD: usize = 0;
/// The initial state.
pub const INIT: usize = 1;

impl Matcher {
  /// Creates a matcher from expressions and tags.
  pub fn new(bytes: bool, exprs: &[(Hir, usize)]) -> Result<Self, Unsupported> {
    let max = if bytes { 0xff } else { 0x10_ffff };
    Self::with(bytes, max, |m| exprs.iter().map(|(hir, tag)| Ok((m.build(hir)?, *tag))).collect())
  }

  /// Creates a matcher from expressions over the symbols `0..=max` and tags.
  pub fn of_trees(max: u32, exprs: &[(Tree, usize)]) -> Result<Self, Unsupported> {
    Self::with(true, max, |m| exprs.iter().map(|(t, tag)| Ok((m.plant(t)?, *tag))).collect())
  }

  fn with(bytes: bool, max: u32, exprs: impl FnOnce(&mut Self) -> Result<Vec<(Id, usize)>, Unsupported>) -> Result<Self, Unsupported> {
    let mut m = Self {
      bytes,
      max,
      nodes: Vec::new(),
      nullable: Vec::new(),
      ids: Map::default(),
      memo: Map::default(),
      atoms: Vec::new(),
      states: Vec::new(),
      state_ids: Map::default(),
      next: Map::default(),
    };
    m.node(Node::Fail);
    m.node(Node::Eps);
    let init = exprs(&mut m)?;
    // atoms of the alphabet
    let mut atoms = vec![0];
    for n in &m.nodes {
      if let Node::Class(rs) = n {
        for (l, r) in rs {
          atoms.push(*l);
          atoms.push(*r + 1);
        }
      }
    }
    atoms.sort_unstable();
    atoms.dedup();
    m.atoms = atoms;
    m.state(vec![]);
    let init = m.state(init);
    assert_eq!(init, INIT);
    Ok(m)
  }

  fn node(&mut self, n: Node) -> Id {
    if let Some(id) = self.ids.get(&n) {
      return *id;
    }
    let nullable = match &n {
      Node::Fail | Node::Class(_) => false,
      Node::Eps | Node::Star(_) => true,
      Node::Cat(a, b) => self.nullable[*a as usize] && self.nullable[*b as usize],
      Node::Alt(v) => v.iter().any(|i| self.nullable[*i as usize]),
    };
    let id = self.nodes.len() as Id;
    self.nodes.push(n.clone());
    self.nullable.push(nullable);
    self.ids.insert(n, id);
    id
  }

  fn cat(&mut self, a: Id, b: Id) -> Id {
    if a == FAIL || b == FAIL {
      return FAIL;
    }
    if a == EPS {
      return b;
    }
    if b == EPS {
      return a;
    }
    // right-associative
    if let Node::Cat(x, y) = self.nodes[a as usize] {
      let t = self.cat(y, b);
      return self.node(Node::Cat(x, t));
    }
    self.node(Node::Cat(a, b))
  }

  fn alt(&mut self, xs: Vec<Id>) -> Id {
    let mut v = Vec::new();
    for x in xs {
      match &self.nodes[x as usize] {
        Node::Fail => {}
        Node::Alt(ys) => v.extend(ys.iter().copied()),
        _ => v.push(x),
      }
    }
    v.sort_unstable();
    v.dedup();
    match v.len() {
      0 => FAIL,
      1 => v[0],
      _ => self.node(Node::Alt(v)),
    }
  }

  fn star(&mut self, x: Id) -> Id {
    match &self.nodes[x as usize] {
      Node::Fail | Node::Eps => EPS,
      Node::Star(_) => x,
      _ => self.node(Node::Star(x)),
    }
  }

  fn build(&mut self, hir: &Hir) -> Result<Id, Unsupported> {
    Ok(match hir.kind() {
      HirKind::Empty => EPS,
      HirKind::Literal(l) => {
        let syms: Vec<u32> = if self.bytes {
          l.0.iter().map(|b| *b as u32).collect()
        } else {
          std::str::from_utf8(&l.0)
            .map_err(|_| Unsupported::Utf8)?
            .chars()
            .map(|c| c as u32)
            .collect()
        };
        let mut r = EPS;
        for s in syms.into_iter().rev() {
          let c = self.node(Node::Class(vec![(s, s)]));
          r = self.cat(c, r);
        }
        r
      }
      HirKind::Class(c) => {
        let rs: Vec<(u32, u32)> = match c {
          Class::Unicode(_) if self.bytes => return Err(Unsupported::Unicode),
          Class::Unicode(u) => u.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
          Class::Bytes(b) => b.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
        };
        if rs.is_empty() {
          return Err(Unsupported::Nothing);
        }
        self.node(Node::Class(rs))
      }
      HirKind::Look(_) => return Err(Unsupported::Look),
      HirKind::Capture(c) => self.build(&c.sub)?,
      HirKind::Concat(v) => {
        let ids = v.iter().map(|h| self.build(h)).collect::<Result<Vec<_>, _>>()?;
        ids.into_iter().rev().fold(EPS, |r, x| self.cat(x, r))
      }
      HirKind::Alternation(v) => {
        let ids = v.iter().map(|h| self.build(h)).collect::<Result<Vec<_>, _>>()?;
        self.alt(ids)
      }
      HirKind::Repetition(r) => {
        if !r.greedy {
          return Err(Unsupported::Lazy);
        }
        let x = self.build(&r.sub)?;
        let mut t = match r.max {
          None => self.star(x),
          Some(max) => (r.min..max).fold(EPS, |t, _| {
            let y = self.cat(x, t);
            self.alt(vec![y, EPS])
          }),
        };
        for _ in 0..r.min {
          t = self.cat(x, t);
        }
        t
      }
    })
  }

  fn plant(&mut self, t: &Tree) -> Result<Id, Unsupported> {
    Ok(match t {
      Tree::Eps => EPS,
      Tree::Class(rs) if rs.is_empty() => return Err(Unsupported::Nothing),
      Tree::Class(rs) => self.node(Node::Class(rs.clone())),
      Tree::Cat(v) => {
        let ids = v.iter().map(|h| self.plant(h)).collect::<Result<Vec<_>, _>>()?;
        ids.into_iter().rev().fold(EPS, |r, x| self.cat(x, r))
      }
      Tree::Alt(v) if v.is_empty() => return Err(Unsupported::Nothing),
      Tree::Alt(v) => {
        let ids = v.iter().map(|h| self.plant(h)).collect::<Result<Vec<_>, _>>()?;
        self.alt(ids)
      }
      Tree::Star(x) => {
        let x = self.plant(x)?;
        self.star(x)
      }
    })
  }

  fn atom(&self, s: u32) -> u32 {
    self.atoms.partition_point(|a| *a <= s) as u32 - 1
  }

  fn derive(&mut self, r: Id, atom: u32) -> Id {
    if let Some(d) = self.memo.get(&(r, atom)) {
      return *d;
    }
    let d = match self.nodes[r as usize].clone() {
      Node::Fail | Node::Eps => FAIL,
      Node::Class(rs) => {
        let s = self.atoms[atom as usize];
        if rs.iter().any(|(l, r)| (*l..=*r).contains(&s)) {
          EPS
        } else {
          FAIL
        }
      }
      Node::Cat(a, b) => {
        let da = self.derive(a, atom);
        let x = self.cat(da, b);
        if self.nullable[a as usize] {
          let y = self.derive(b, atom);
          self.alt(vec![x, y])
        } else {
          x
        }
      }
      Node::Alt(v) => {
        let ds = v.into_iter().map(|x| self.derive(x, atom)).collect();
        self.alt(ds)
      }
      Node::Star(x) => {
        let dx = self.derive(x, atom);
        self.cat(dx, r)
      }
    };
    self.memo.insert((r, atom), d);
    d
  }

  fn state(&mut self, s: Vec<(Id, usize)>) -> usize {
    if let Some(id) = self.state_ids.get(&s) {
      return *id;
    }
    let id = self.states.len();
    self.states.push(s.clone());
    self.state_ids.insert(s, id);
    id
  }

  /// The state after the given symbol; [`DEAD`] if no text that continues
  /// like this matches.
  pub fn step(&mut self, state: usize, sym: u32) -> usize {
    let atom = self.atom(sym);
    if let Some(n) = self.next.get(&(state, atom)) {
      return *n;
    }
    let mut v = Vec::new();
    for (r, tag) in self.states[state].clone() {
      let d = self.derive(r, atom);
      if d != FAIL && !v.contains(&(d, tag)) {
        v.push((d, tag));
      }
    }
    let n = self.state(v);
    self.next.insert((state, atom), n);
    n
  }

  /// The smallest tag of the expressions that match in this state.
  pub fn tag(&self, state: usize) -> Option<usize> {
    self.states[state]
      .iter()
      .filter(|(r, _)| self.nullable[*r as usize])
      .map(|(_, t)| *t)
      .min()
  }

  /// The smallest tag of the expressions that match the whole text.
  pub fn find(&mut self, text: impl IntoIterator<Item = u32>) -> Option<usize> {
    let mut s = INIT;
    for c in text {
      s = self.step(s, c);
    }
    self.tag(s)
  }

  /// One symbol of every atom of the alphabet.
  pub fn alphabet(&self) -> Vec<u32> {
    let max = self.max;
    self.atoms.iter().copied().filter(|a| *a <= max).collect()
  }

  /// Whether some text that is longer can still match.
  pub fn alive(&mut self, state: usize) -> bool {
    self.alphabet().into_iter().any(|a| self.step(state, a) != DEAD)
  }

  /// The expressions are the same before and after the symbol, and have one tag.
  pub fn loops(&mut self, sym: u32) -> Option<usize> {
    let s = self.step(INIT, sym);
    if s == DEAD || self.step(s, sym) != s {
      return None;
    }
    match self.states[s].as_slice() {
      [(_, t)] => self.tag(s).filter(|x| x == t),
      _ => None,
    }
  }

  /// A symbol near the borders of the classes, or any other one.
  pub fn symbol(&self, r: &mut Rng) -> u32 {
    let max = self.max;
    let mut s = match r.below(8) {
      0 => r.below(128.min(max as usize + 1)) as u32,
      1 if !self.bytes => r.below(max as usize) as u32,
      _ => {
        let a = *r.pick(&self.atoms) as i64;
        (a + r.range(0, 3) as i64 - 1).clamp(0, max as i64) as u32
      }
    };
    if (0xd800..0xe000).contains(&s) && !self.bytes {
      s = if r.chance(1, 2) { 0xd7ff } else { 0xe000 };
    }
    s
  }

  /// A text that mostly follows the expressions.
  pub fn text(&mut self, r: &mut Rng, max: usize) -> Vec<u32> {
    let mut out = Vec::new();
    let mut state = INIT;
    let stop = r.range(2, 12);
    while out.len() < max {
      if self.tag(state).is_some() && r.chance(1, stop) {
        break;
      }
      let mut next = None;
      for _ in 0..12 {
        let s = self.symbol(r);
        let n = self.step(state, s);
        if n != DEAD {
          next = Some((s, n));
          break;
        }
      }
      if next.is_none() {
        // try every atom
        let k = self.atoms.len();
        let from = r.below(k);
        for i in 0..k {
          let s = self.atoms[(from + i) % k];
          if !self.bytes && char::from_u32(s).is_none() || self.bytes && s > self.max {
            continue;
          }
          let n = self.step(state, s);
          if n != DEAD {
            next = Some((s, n));
            break;
          }
        }
      }
      match next {
        Some((s, n)) => {
          out.push(s);
          state = n;
        }
        None => break,
      }
    }
    out
  }

  /// Number of states that were visited.
  pub fn visited(&self) -> usize {
    self.states.len()
  }
}
