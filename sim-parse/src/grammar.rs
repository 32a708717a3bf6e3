//! Reference grammars: every construct is described as a value, and a small
//! interpreter decides and parses it on the reference queue.

use crate::queue::*;
use laps::token::Token;
use simcore::Rng;

/// A construct, as a value.
#[derive(Clone)]
pub enum Gram {
  Tok(usize),
  /// Fields in order; the first one decides.
  Seq(Vec<R>),
  Opt(R),
  Many(R),
  Plus(R),
  /// Elements, separators, at least one element, trailing separator allowed.
  Sep {
    t: R,
    s: R,
    some: bool,
    trail: bool,
  },
  /// Like `Sep` with at least one element, but the separators are kept.
  List {
    t: R,
    s: R,
    trail: bool,
  },
  /// The prefix is optional, either of them decides.
  OptPrefix(R, R),
  /// The prefix is one optional token, what follows decides.
  OptTokenPrefix(R, R),
  /// The prefix is one token, both decide.
  TokenPrefix(R, R),
  /// Tokens that decide, or otherwise the first field.
  Struct(Vec<usize>, Vec<R>),
  /// Tokens that decide, or otherwise the first fields of the variants.
  Enum(Vec<usize>, Vec<(&'static str, Vec<R>)>),
}

/// A reference to a construct (they may be recursive).
pub type R = fn() -> Gram;

/// A parsed structure.
#[derive(Clone, Debug)]
pub enum Tree {
  Tok(Token<K>),
  Node(&'static str, Vec<Tree>),
}

/// A parsed structure of the model.
#[derive(Clone, Debug)]
pub enum MTree {
  Tok(MTok),
  Node(&'static str, Vec<MTree>),
}

/// Types that describe themselves.
pub trait G: Sized {
  fn gram() -> Gram;
  fn tree(&self) -> Tree;
}

impl Tree {
  pub fn show(&self, id: &dyn Fn(&Token<K>) -> usize, out: &mut String) {
    match self {
      Self::Tok(t) => out.push_str(&format!(" {:?}#{}", t.kind, id(t))),
      Self::Node(n, ts) => {
        out.push_str(&format!(" {n}("));
        ts.iter().for_each(|t| t.show(id, out));
        out.push_str(" )");
      }
    }
  }

  /// First and last token.
  pub fn ends(&self) -> Option<(Token<K>, Token<K>)> {
    match self {
      Self::Tok(t) => Some((t.clone(), t.clone())),
      Self::Node(_, ts) => {
        let first = ts.iter().find_map(|t| t.ends())?.0;
        let last = ts.iter().rev().find_map(|t| t.ends())?.1;
        Some((first, last))
      }
    }
  }
}

impl MTree {
  pub fn show(&self, n: usize, out: &mut String) {
    match self {
      Self::Tok(t) => out.push_str(&format!(" {:?}#{}", t.1, t.0.min(n))),
      Self::Node(name, ts) => {
        out.push_str(&format!(" {name}("));
        ts.iter().for_each(|t| t.show(n, out));
        out.push_str(" )");
      }
    }
  }
}

/// Why parsing fails.
#[derive(Clone, Debug)]
pub enum Fail {
  /// The tokenizer failed, fatally or not.
  Tok(bool),
  /// The expected construct, and the offending token.
  Mismatch(usize, MTok),
}

impl From<bool> for Fail {
  fn from(f: bool) -> Self {
    Self::Tok(f)
  }
}

/// Decides by the given tokens.
fn chain(asts: &[usize], m: &mut Model, eager: bool) -> Result<bool, bool> {
  let mut ok = true;
  let mut taken = Vec::new();
  let mut fail = None;
  for a in asts {
    if !ok && !eager {
      break;
    }
    match m.next() {
      Ok(t) => {
        ok &= ast_accepts(*a, &t.1);
        taken.push(t);
      }
      Err(f) => {
        fail = Some(f);
        break;
      }
    }
  }
  taken.into_iter().rev().for_each(|t| m.unread(t));
  match fail {
    Some(f) => Err(f),
    None => Ok(ok),
  }
}

/// Decides whether the construct may start here.
pub fn maybe(g: &Gram, m: &mut Model, eager: bool) -> Result<bool, bool> {
  Ok(match g {
    Gram::Tok(a) => ast_accepts(*a, &m.peek_n(1)?[0].1),
    Gram::Opt(_) | Gram::Many(_) | Gram::Sep { some: false, .. } => true,
    Gram::Plus(t) | Gram::Sep { t, .. } | Gram::List { t, .. } => maybe(&t(), m, eager)?,
    Gram::OptPrefix(p, t) => maybe(&p(), m, eager)? || maybe(&t(), m, eager)?,
    Gram::OptTokenPrefix(p, t) | Gram::TokenPrefix(p, t) => {
      if maybe(&p(), m, eager)? {
        let tok = m.next()?;
        let r = maybe(&t(), m, eager);
        m.unread(tok);
        r?
      } else {
        matches!(g, Gram::OptTokenPrefix(..)) && maybe(&t(), m, eager)?
      }
    }
    Gram::Struct(st, _) | Gram::Enum(st, _) if !st.is_empty() => chain(st, m, eager)?,
    Gram::Seq(f) | Gram::Struct(_, f) => match f.first() {
      Some(f) => maybe(&f(), m, eager)?,
      None => true,
    },
    Gram::Enum(_, vs) => {
      for (_, f) in vs {
        if match f.first() {
          Some(f) => maybe(&f(), m, eager)?,
          None => true,
        } {
          return Ok(true);
        }
      }
      false
    }
  })
}

/// Parses the construct.
pub fn parse(g: &Gram, m: &mut Model, eager: bool) -> Result<MTree, Fail> {
  let all = |fs: &[R], m: &mut Model| fs.iter().map(|f| parse(&f(), m, eager)).collect::<Result<Vec<_>, _>>();
  Ok(match g {
    Gram::Tok(a) => {
      let t = m.next()?;
      if !ast_accepts(*a, &t.1) {
        return Err(Fail::Mismatch(*a, t));
      }
      MTree::Tok(t)
    }
    Gram::Seq(f) | Gram::Struct(_, f) => MTree::Node("", all(f, m)?),
    Gram::Opt(t) => {
      let t = t();
      match maybe(&t, m, eager)? {
        true => MTree::Node("some", vec![parse(&t, m, eager)?]),
        false => MTree::Node("none", vec![]),
      }
    }
    Gram::Many(t) => {
      let t = t();
      let mut v = Vec::new();
      while maybe(&t, m, eager)? {
        v.push(parse(&t, m, eager)?);
      }
      MTree::Node("", v)
    }
    Gram::Plus(t) => {
      let t = t();
      let mut v = vec![parse(&t, m, eager)?];
      while maybe(&t, m, eager)? {
        v.push(parse(&t, m, eager)?);
      }
      MTree::Node("", v)
    }
    Gram::Sep { t, s, some, trail } => {
      let (t, s) = (t(), s());
      let mut v = Vec::new();
      if *some || maybe(&t, m, eager)? {
        loop {
          v.push(parse(&t, m, eager)?);
          if !maybe(&s, m, eager)? {
            break;
          }
          parse(&s, m, eager)?;
          if *trail && !maybe(&t, m, eager)? {
            break;
          }
        }
      }
      MTree::Node("", v)
    }
    Gram::List { t, s, trail } => {
      let (t, s) = (t(), s());
      let mut v = vec![];
      loop {
        let x = parse(&t, m, eager)?;
        if !maybe(&s, m, eager)? {
          v.push(vec![x]);
          break;
        }
        let y = parse(&s, m, eager)?;
        v.push(vec![x, y]);
        if *trail && !maybe(&t, m, eager)? {
          break;
        }
      }
      // one node per element
      let mut it = v.into_iter().rev();
      let last = it.next().unwrap();
      let mut tree = MTree::Node("last", last);
      for mut x in it {
        x.push(tree);
        tree = MTree::Node("more", x);
      }
      tree
    }
    Gram::OptPrefix(p, t) | Gram::OptTokenPrefix(p, t) => {
      let p = parse(&Gram::Opt(*p), m, eager)?;
      MTree::Node("", vec![p, parse(&t(), m, eager)?])
    }
    Gram::TokenPrefix(p, t) => MTree::Node("", all(&[*p, *t], m)?),
    Gram::Enum(_, vs) => {
      for (i, (name, f)) in vs.iter().enumerate() {
        let here = i + 1 == vs.len()
          || match f.first() {
            Some(f) => maybe(&f(), m, eager)?,
            None => true,
          };
        if here {
          return Ok(MTree::Node(name, all(f, m)?));
        }
      }
      unreachable!()
    }
  })
}

/// Appends tokens that the construct probably accepts.
/// About `max` tokens at most; repetitions are long if there may be many.
pub fn derive(g: &Gram, r: &mut Rng, depth: usize, max: usize, out: &mut Vec<Code>) {
  if depth > 14 || out.len() > max {
    return;
  }
  let mut go = |t: &R, r: &mut Rng| derive(&t(), r, depth + 1, max, out);
  let count = |r: &mut Rng| match max > 100 && depth < 4 {
    true => r.range(0, max / 2),
    false => [0, 1, 1, 2, 2, 3, 5][r.below(if depth > 6 { 3 } else { 7 })],
  };
  match g {
    Gram::Tok(a) => {
      let n = r.below(1000) as u32;
      out.push(match a {
        0 => Code(0, n),
        1 => Code(1, n),
        6 => Code(0, n / 2 * 2),
        7 => Code(2 + r.below(2) as u8, 0),
        8 => Code(6, 0),
        9 => Code(4 + r.below(2) as u8, 0),
        10 => Code(1, 100 + n),
        11 => Code(0, 501 + n),
        12 => Code(3, 0),
        13 => Code(0, n % 310),
        14 => *r.pick(&[Code(0, n), Code(1, n), Code(6, 0)]),
        15 => Code(2, 0),
        16 => Code(1, n % 12),
        a => Code(*a as u8, 0),
      })
    }
    Gram::Seq(f) | Gram::Struct(_, f) => f.iter().for_each(|f| go(f, r)),
    Gram::Opt(t) => {
      if r.chance(1, 2) {
        go(t, r);
      }
    }
    Gram::Many(t) => (0..count(r)).for_each(|_| go(t, r)),
    Gram::Plus(t) => (0..count(r).max(1)).for_each(|_| go(t, r)),
    Gram::Sep { t, s, some, trail } => {
      let n = count(r).max(*some as usize);
      for i in 0..n {
        go(t, r);
        if i + 1 < n || (*trail && r.chance(1, 2)) {
          go(s, r);
        }
      }
    }
    Gram::List { t, s, trail } => {
      let n = count(r).max(1);
      for i in 0..n {
        go(t, r);
        if i + 1 < n || (*trail && r.chance(1, 2)) {
          go(s, r);
        }
      }
    }
    Gram::OptPrefix(p, t) | Gram::OptTokenPrefix(p, t) => {
      if r.chance(1, 2) {
        go(p, r);
      }
      go(t, r);
    }
    Gram::TokenPrefix(p, t) => {
      go(p, r);
      go(t, r);
    }
    Gram::Enum(_, vs) => {
      // deep derivations prefer short variants
      let at = match depth > 8 {
        true => vs.iter().enumerate().min_by_key(|(_, v)| v.1.len()).unwrap().0,
        false => r.below(vs.len()),
      };
      vs[at].1.iter().for_each(|f| go(f, r));
    }
  }
}
