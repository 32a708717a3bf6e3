//! Reference models of the input stream, independent of the code under test.

use crate::feed::{Feed, Out};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

/// A simulated document and the way it is delivered.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Source {
  pub doc: String,
  pub corrupt: Vec<Corrupt>,
  pub steps: Vec<crate::Step>,
  pub tail: usize,
}

/// A corruption of the stored bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Corrupt {
  Flip(usize, u8),
  Insert(usize, u8),
  Set(usize, u8),
  Truncate(usize),
}

impl Source {
  pub fn bytes(&self) -> Vec<u8> {
    self.corrupted(self.doc.clone().into_bytes())
  }

  /// Applies the corruptions to the given bytes.
  pub fn corrupted(&self, mut b: Vec<u8>) -> Vec<u8> {
    for c in &self.corrupt {
      if b.is_empty() {
        break;
      }
      let n = b.len();
      match c {
        Corrupt::Flip(at, bit) => b[at % n] ^= 1 << (bit % 8),
        Corrupt::Insert(at, x) => b.insert(at % n, *x),
        Corrupt::Set(at, x) => b[at % n] = *x,
        Corrupt::Truncate(at) => b.truncate(at % n),
      }
    }
    b
  }

  pub fn feed(&self) -> Feed {
    Feed::new(self.bytes(), self.steps.clone(), self.tail)
  }
}

/// Which faults a delivery trace contains.
#[derive(Clone, Copy, Debug, Default)]
pub struct Faults {
  pub eintr: bool,
  pub fail: bool,
  pub eof: bool,
}

/// Short and interrupted writes.
pub fn gen_wsteps(r: &mut Rng) -> Vec<crate::os::WStep> {
  if r.chance(1, 2) {
    return Vec::new();
  }
  let n = r.size(60);
  (0..n)
    .map(|_| match r.below(4) {
      0 => crate::os::WStep::Eintr,
      1 => crate::os::WStep::Short(1),
      2 => crate::os::WStep::Short(r.range(1, 9)),
      _ => crate::os::WStep::Short(4096),
    })
    .collect()
}

/// Generates a delivery trace.
pub fn gen_steps(r: &mut Rng, len: usize, f: Faults) -> (Vec<crate::Step>, usize) {
  use crate::Step::*;
  let style = r.below(6);
  let n = match style {
    0 => 0,
    1 => r.range(0, 3),
    2 => r.range(0, 12),
    3 => r.range(0, 40),
    _ => r.range(0, len.min(400) + 4),
  };
  // swarm: every run has its own mix
  let w_eintr = if f.eintr { [0, 1, 3, 8][r.below(4)] } else { 0 };
  let w_fail = if f.fail { [0, 1, 2, 5][r.below(4)] } else { 0 };
  let w_eof = if f.eof { [0, 1, 2][r.below(3)] } else { 0 };
  let w_one = [1, 6, 12][r.below(3)];
  let w_small = [1, 6][r.below(2)];
  let w_page = [0, 2][r.below(2)];
  let mut steps = Vec::new();
  while steps.len() < n {
    match r.weighted(&[w_one, w_small, w_page, 1, w_eintr, w_fail, w_eof]) {
      0 => steps.push(Give(1)),
      1 => steps.push(Give(r.range(2, 7))),
      2 => steps.push(Give(r.range(1020, 1027))),
      3 => steps.push(Give(r.range(1, len.max(1)))),
      4 => (0..r.range(1, 4)).for_each(|_| steps.push(Eintr)),
      5 => steps.push(Fail(r.below(crate::feed::KINDS as usize) as u8)),
      _ => (0..r.range(1, 2)).for_each(|_| steps.push(Eof)),
    }
  }
  let tail = match r.below(4) {
    0 => 0,
    1 => 1,
    2 => r.range(2, 5),
    _ => r.range(6, 1100),
  };
  (steps, tail)
}

/// Generates a text with many characters of all encoded lengths.
pub fn gen_text(r: &mut Rng, max: usize) -> String {
  const SPECIAL: &[char] = &[
    '\0', '\t', '\r', '\n', ' ', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{feff}',
    '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10fff}', '\u{11000}',
    '\u{10ffff}', '\u{1f602}', '\u{301}', 'é', '你', '好', '\u{2028}', '\u{85}',
  ];
  let big = r.chance(1, 8);
  let n = if big { r.range(900, max.max(901)) } else { r.size(max.min(80)) };
  let w = [
    [10, 2, 1, 1, 1, 1],
    [1, 1, 3, 3, 3, 1],
    [20, 3, 0, 0, 0, 0],
    [2, 1, 0, 1, 6, 2],
    [1, 4, 1, 1, 1, 4],
  ][r.below(5)];
  let mut s = String::new();
  if big && r.chance(2, 3) {
    // let characters straddle the ends of 1024 byte blocks
    let pad = r.range(1016, 1026);
    for i in 0..pad {
      s.push(if i % 61 == 60 { '\n' } else { 'x' });
    }
  }
  let mut left = n;
  while left > 0 {
    left -= 1;
    let c = match r.weighted(&w) {
      0 => (b' ' + r.below(95) as u8) as char,
      1 => *r.pick(&['\n', '\n', ' ', '\t', '\r']),
      2 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
      3 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
      4 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
      _ => *r.pick(SPECIAL),
    };
    s.push(c);
    if s.len() > max {
      break;
    }
  }
  s
}

/// Generates a text whose lines, columns or characters do not fit into 16 bits.
pub fn gen_huge(r: &mut Rng) -> String {
  let n = r.range(65_530, 70_000);
  let c = *r.pick(&['x', 'x', '\u{e9}', '\u{4f60}', '\u{1f602}']);
  let (line, end) = match r.below(4) {
    // one line, short lines, empty lines, a few long lines
    0 => (n + 1, "\n"),
    1 => (r.range(1, 3), "\n"),
    2 => (0, "\n"),
    _ => (r.range(20_000, 66_000), "\r\n"),
  };
  let mut s = String::new();
  let mut k = 0;
  for _ in 0..n {
    if k == line {
      s += end;
      k = 0;
    } else {
      s.push(c);
      k += 1;
    }
  }
  s.push_str(["", "\n", "y"][r.below(3)]);
  s
}

/// Generates corruptions of a document.
pub fn gen_corrupt(r: &mut Rng, len: usize) -> Vec<Corrupt> {
  let n = match r.below(4) {
    0 => 0,
    1 | 2 => 1,
    _ => r.range(1, 3),
  };
  (0..n)
    .map(|_| {
      let at = r.below(len.max(1));
      match r.below(4) {
        0 => Corrupt::Flip(at, r.below(8) as u8),
        1 => Corrupt::Insert(
          at,
          *r.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xc3, 0xe0, 0xe4, 0xed, 0xf0, 0xf4, 0xf5, 0xff]),
        ),
        2 => Corrupt::Set(at, *r.pick(&[0x80, 0xbf, 0xc2, 0xe0, 0xed, 0xf4, 0xf8, 0xff, 0xfe])),
        _ => Corrupt::Truncate(at),
      }
    })
    .collect()
}

/// What a reader must produce next.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Item {
  Char(u32),
  Eof,
  IoErr(u8),
  /// Invalid or incomplete UTF-8.
  Bad,
}

/// A location in the text.
pub type Loc = (u32, u32);

/// Location after the given character.
pub fn advance(loc: Loc, c: u32) -> Loc {
  if c == '\n' as u32 {
    (loc.0 + 1, 0)
  } else {
    (loc.0, loc.1 + 1)
  }
}

/// Reference model of an input stream.
pub struct CharModel {
  utf8: bool,
  front: Vec<u32>,
  items: VecDeque<Item>,
  pending: Vec<u8>,
  seen_log: usize,
  seen_pos: usize,
  pub poisoned: bool,
  /// The source is in memory, it ends with an endless end of file.
  closed: bool,
  pub loc: Loc,
  /// Number of characters taken from the stream.
  pub taken: usize,
  /// Number of items that were delivered, removed, and looked at.
  pushed: usize,
  popped: usize,
  observed: usize,
  /// What was delivered before each read that delivered something.
  before: Vec<Option<usize>>,
}

thread_local! {
  static LAZY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether simulations also check that nothing is read ahead of the demand.
pub fn lazy() -> bool {
  LAZY.get()
}

/// Runs a simulation that only checks that nothing is read ahead of the demand.
pub fn only_lazy<T>(f: impl FnOnce() -> Result<T, crate::Viol>) -> Result<Option<T>, crate::Viol> {
  LAZY.set(true);
  let r = f();
  LAZY.set(false);
  match r {
    Err(v) if v.kind != "eager" => Ok(None),
    r => r.map(Some),
  }
}

impl CharModel {
  pub fn new(utf8: bool) -> Self {
    Self {
      utf8,
      front: Vec::new(),
      items: VecDeque::new(),
      pending: Vec::new(),
      seen_log: 0,
      seen_pos: 0,
      poisoned: false,
      closed: false,
      loc: (1, 0),
      taken: 0,
      pushed: 0,
      popped: 0,
      observed: 0,
      before: Vec::new(),
    }
  }

  /// Creates a model of a reader of an in-memory document.
  pub fn in_memory(utf8: bool, bytes: &[u8]) -> Self {
    let mut m = Self::new(utf8);
    m.push_bytes(bytes);
    if !m.pending.is_empty() {
      m.poisoned = true;
    }
    m.closed = true;
    m
  }

  fn push_bytes(&mut self, bytes: &[u8]) {
    if self.poisoned {
      return;
    }
    if !self.utf8 {
      self.items.extend(bytes.iter().map(|b| Item::Char(*b as u32)));
      self.pushed += bytes.len();
      return;
    }
    let known = self.items.len();
    self.pending.extend_from_slice(bytes);
    let (valid, bad) = match std::str::from_utf8(&self.pending) {
      Ok(s) => (s.len(), false),
      Err(e) => (e.valid_up_to(), e.error_len().is_some()),
    };
    let s = std::str::from_utf8(&self.pending[..valid]).unwrap();
    self.items.extend(s.chars().map(|c| Item::Char(c as u32)));
    self.pushed += self.items.len() - known;
    self.pending.drain(..valid);
    self.poisoned = bad;
  }

  /// Takes over what the source has done since the last call.
  pub fn refresh(&mut self, feed: &Feed) {
    while self.seen_log < feed.log.len() {
      let out = feed.log[self.seen_log];
      self.seen_log += 1;
      let known = self.items.len();
      let live = matches!(out, Out::Data(_)) && !self.poisoned;
      self.before.push(live.then_some(self.pushed));
      match out {
        Out::Data(n) => {
          let bytes = feed.data[self.seen_pos..self.seen_pos + n].to_vec();
          self.seen_pos += n;
          self.push_bytes(&bytes);
        }
        Out::Eof if self.poisoned => {}
        Out::Eof if !self.pending.is_empty() => self.items.push_back(Item::Bad),
        Out::Eof => self.items.push_back(Item::Eof),
        Out::Fail(_) if self.poisoned => {}
        Out::Fail(e) => self.items.push_back(Item::IoErr(e)),
        Out::Eintr | Out::Empty => {}
      }
      if !matches!(out, Out::Data(_)) {
        self.pushed += self.items.len() - known;
      }
    }
  }

  /// Whether one of the given calls of the source asked for something that
  /// nobody has looked at.
  pub fn eager(&self, calls: std::ops::Range<usize>) -> Option<String> {
    let calls = calls.start.min(self.before.len())..calls.end.min(self.before.len());
    let at = calls.rev().find_map(|i| self.before[i].map(|b| (i, b)));
    let (i, had) = at.filter(|(_, had)| *had >= self.observed)?;
    Some(format!(
      "call {i} of the source was made after {had} characters were delivered, {} were needed",
      self.observed
    ))
  }

  /// The next item without taking it, [`None`] if nothing is known about it.
  pub fn look(&self) -> Option<Item> {
    if let Some(c) = self.front.last() {
      return Some(Item::Char(*c));
    }
    match self.items.front() {
      Some(i) => Some(*i),
      None if self.poisoned => Some(Item::Bad),
      None if self.closed => Some(Item::Eof),
      None => None,
    }
  }

  /// Takes the next item. A marker (end of file, error) is removed
  /// by the operation which observes it.
  pub fn take(&mut self) -> Option<Item> {
    let item = self.look()?;
    if let Item::Char(c) = item {
      self.loc = advance(self.loc, c);
      self.taken += 1;
      if self.front.pop().is_some() {
        return Some(item);
      }
    }
    self.pop();
    Some(item)
  }

  fn pop(&mut self) {
    if self.items.pop_front().is_some() {
      self.popped += 1;
      self.observed = self.observed.max(self.popped);
    } else {
      // behind malformed text, or the end of a document in memory
      self.observed = usize::MAX;
    }
  }

  /// Observes the next item, takes it only if it is a marker.
  pub fn peek(&mut self) -> Option<Item> {
    match self.look()? {
      c @ Item::Char(_) => {
        if self.front.is_empty() {
          self.observed = self.observed.max(self.popped + 1);
        }
        Some(c)
      }
      m => {
        self.pop();
        Some(m)
      }
    }
  }

  /// Puts a character back and sets the location.
  pub fn unread(&mut self, c: Option<u32>, loc: Loc) {
    self.loc = loc;
    if let Some(c) = c {
      self.front.push(c);
    }
  }

  /// Number of characters that are known but not taken.
  pub fn known(&self) -> usize {
    self.front.len() + self.items.iter().filter(|i| matches!(i, Item::Char(_))).count()
  }
}
