//! Sources without end.

use crate::alloc;
use crate::kinds::K;
use serde::{Deserialize, Serialize};
use simcore::model::{advance, Loc};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Text {
  Word(usize),
  Num(u64),
  /// A number with so many digits that it is none.
  Huge(usize),
  Blanks(usize),
  Lines(usize),
  Semi,
  Plus,
  Comment(usize),
  /// An incomplete token.
  Bad,
}

/// What happens behind a text.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cut {
  No,
  Fail,
  /// A temporary end.
  End,
}

impl Text {
  /// Number of characters.
  pub fn length(&self) -> usize {
    match self {
      Text::Word(n) | Text::Comment(n) | Text::Blanks(n) | Text::Lines(n) | Text::Huge(n) => *n,
      _ => 1,
    }
  }

  /// Number of characters, at least.
  pub fn size(&self) -> usize {
    match self {
      Text::Word(n) | Text::Comment(n) | Text::Huge(n) => *n,
      _ => 1,
    }
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Piece(pub Text, pub Cut);

/// A token or an error (fatal or not) that a lexer gives.
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
  Tok(K, Loc, Loc),
  Err(bool),
}

/// What a reader gives.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
  Char(char),
  Fail,
  End,
}

pub struct Source {
  pieces: Vec<Piece>,
  /// Number of pieces that are left, there is nothing behind them.
  left: usize,
  at: usize,
  /// Sizes of reads, 0 is an interrupted one.
  chunks: Vec<usize>,
  chunk: usize,
  lexed: bool,
  bytes: bool,
  pub loc: Loc,
  /// Not delivered yet.
  out: VecDeque<(u8, bool)>,
  cuts: VecDeque<Cut>,
  /// Not taken yet by the model.
  pub events: VecDeque<Event>,
  pub items: VecDeque<Item>,
  pub delivered: u64,
  pub interrupts: u64,
  pub fails: u64,
  pub ends: u64,
  pub calls: u64,
}

impl Source {
  pub fn new(pieces: &[Piece], total: usize, chunks: &[usize], level: u8) -> Rc<RefCell<Self>> {
    Rc::new(RefCell::new(Self {
      pieces: pieces.to_vec(),
      left: if pieces.is_empty() { 0 } else { total },
      at: 0,
      chunks: chunks.to_vec(),
      chunk: 0,
      lexed: level >= 2,
      bytes: level == 1,
      loc: (1, 0),
      out: VecDeque::new(),
      cuts: VecDeque::new(),
      events: VecDeque::new(),
      items: VecDeque::new(),
      delivered: 0,
      interrupts: 0,
      fails: 0,
      ends: 0,
      calls: 0,
    }))
  }

  /// Appends a text, and what follows from it.
  fn append(&mut self, text: &str, kind: Option<K>, bad: bool, cut: Cut) {
    let mut start = None;
    let units: Vec<char> = match self.bytes {
      true => text.bytes().map(char::from).collect(),
      false => text.chars().collect(),
    };
    for c in units {
      self.loc = advance(self.loc, c as u32);
      start.get_or_insert(self.loc);
      if !self.lexed {
        self.items.push_back(Item::Char(c));
      }
    }
    self.out.extend(text.bytes().map(|b| (b, false)));
    match cut {
      Cut::No => {}
      _ => {
        self.out.back_mut().unwrap().1 = true;
        self.cuts.push_back(cut);
      }
    }
    if self.lexed {
      let event = match (cut, kind) {
        (Cut::Fail, _) => Event::Err(true),
        (_, Some(k)) => Event::Tok(k, start.unwrap(), self.loc),
        _ if bad => Event::Err(false),
        _ => return,
      };
      self.events.push_back(event);
    } else if cut != Cut::No {
      self.items.push_back(if cut == Cut::Fail { Item::Fail } else { Item::End });
    }
  }

  /// Whether two neighbouring texts would become one.
  fn joins(a: &Text, b: &Text) -> bool {
    use Text::*;
    matches!((a, b), (Word(_) | Num(_) | Huge(_), Word(_) | Num(_) | Huge(_)) | (Bad, Bad))
  }

  /// Makes the next piece, if there is one.
  pub fn grow(&mut self) -> bool {
    if self.left == 0 {
      return false;
    }
    self.left -= 1;
    let n = self.pieces.len();
    let i = self.at;
    self.at += 1;
    let Piece(text, cut) = self.pieces[i % n].clone();
    let word = |len: usize| -> String {
      let letters = ['a', 'b', 'q', 'z', 'é', '你', '😂'];
      (0..len.max(1)).map(|k| letters[(i + k * k) % if i % 3 == 0 { 7 } else { 4 }]).collect()
    };
    match &text {
      Text::Word(len) => {
        let w = word(*len);
        self.append(&w, Some(K::Word(w.clone())), false, cut);
      }
      Text::Num(x) => {
        let x = x.wrapping_add(i as u64);
        self.append(&x.to_string(), Some(K::Num(x)), false, cut);
      }
      Text::Huge(k) => {
        let text = format!("9{:0k$}", i, k = (*k).max(22));
        self.append(&text, None, true, cut)
      }
      Text::Blanks(k) => self.append(&" ".repeat((*k).max(1)), None, false, cut),
      Text::Lines(k) => self.append(&"\n".repeat((*k).max(1)), None, false, cut),
      Text::Semi => self.append(";", Some(K::Semi), false, cut),
      Text::Plus => self.append("+", Some(K::Plus), false, cut),
      Text::Comment(len) => self.append(&format!("#{}\n", word(*len)), None, false, cut),
      Text::Bad => self.append("$", None, true, cut),
    }
    if Self::joins(&text, &self.pieces[(i + 1) % n].0) {
      self.append(" ", None, false, Cut::No);
    }
    true
  }

  /// Whether everything was delivered.
  pub fn exhausted(&self) -> bool {
    self.left == 0 && self.out.is_empty()
  }

  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    self.calls += 1;
    let want = match self.chunks.len() {
      0 => usize::MAX,
      n => self.chunks[self.chunk % n],
    };
    self.chunk += 1;
    if want == 0 {
      self.interrupts += 1;
      return Err(io::ErrorKind::Interrupted.into());
    }
    // a cut at the beginning
    if self.out.front() == Some(&(0, true)) {
      self.out.pop_front();
      return match self.cuts.pop_front() {
        Some(Cut::Fail) => {
          self.fails += 1;
          Err(io::Error::from_raw_os_error(5))
        }
        _ => {
          self.ends += 1;
          Ok(0)
        }
      };
    }
    let mut n = 0;
    while n < want.min(buf.len()) {
      match self.out.pop_front() {
        Some((b, cut)) => {
          buf[n] = b;
          n += 1;
          if cut {
            // the next read meets the cut
            self.out.push_front((0, true));
            break;
          }
        }
        None => {
          if !self.grow() {
            break;
          }
        }
      }
    }
    self.delivered += n as u64;
    Ok(n)
  }
}

pub struct Reading(pub Rc<RefCell<Source>>);

impl Read for Reading {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    alloc::called(|| self.0.borrow_mut().read(buf))
  }
}
