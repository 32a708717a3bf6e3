//! A simulated byte source: a document plus a scripted fault and delivery trace.

use serde::{Deserialize, Serialize};
use std::io;

/// One step of the delivery trace; each call of `read` takes one step.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Step {
  /// Delivers at most this number of bytes (at least one).
  Give(usize),
  /// The call is interrupted by a signal.
  Eintr,
  /// The call fails with the given error, see [`error_of`].
  Fail(u8),
  /// The source reports the end of file although more data will come.
  Eof,
}

/// What a call of `read` really did.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out {
  Data(usize),
  Eintr,
  Fail(u8),
  Eof,
  /// The caller passed an empty buffer.
  Empty,
}

/// Number of different injected errors of system calls.
pub const ERRORS: u8 = 8;

/// Number of different injected errors of other sources,
/// the first ones are the errors of system calls.
pub const KINDS: u8 = 16;

/// The errno of an injected error.
pub fn errno_of(e: u8) -> i32 {
  match e % ERRORS {
    0 => libc::EIO,
    1 => libc::EAGAIN,
    2 => libc::ECONNRESET,
    3 => libc::ETIMEDOUT,
    4 => libc::EACCES,
    5 => libc::EISDIR,
    6 => libc::ENOMEM,
    _ => libc::EPIPE,
  }
}

/// Name of an injected error, for fault statistics.
pub fn error_name(e: u8) -> &'static str {
  match e % KINDS {
    0 => "EIO",
    1 => "EAGAIN",
    2 => "ECONNRESET",
    3 => "ETIMEDOUT",
    4 => "EACCES",
    5 => "EISDIR",
    6 => "ENOMEM",
    7 => "EPIPE",
    8 => "UnexpectedEof",
    9 => "InvalidData",
    10 => "WriteZero",
    11 => "Other",
    12 => "NotConnected",
    13 => "ConnectionAborted",
    14 => "WouldBlock",
    _ => "BrokenPipe",
  }
}

/// The injected error.
pub fn error_of(e: u8) -> io::Error {
  use io::ErrorKind::*;
  match e % KINDS {
    8 => UnexpectedEof.into(),
    9 => io::Error::new(InvalidData, "the archive is damaged"),
    10 => WriteZero.into(),
    11 => io::Error::other("the decoder failed"),
    12 => NotConnected.into(),
    13 => io::Error::new(ConnectionAborted, "the peer went away"),
    14 => io::Error::new(WouldBlock, "no data yet"),
    15 => BrokenPipe.into(),
    e => io::Error::from_raw_os_error(errno_of(e)),
  }
}

/// An interrupted call, as the `n`th kind of source reports it.
fn interrupted(n: u64) -> io::Error {
  match n % 3 {
    0 => io::ErrorKind::Interrupted.into(),
    1 => io::Error::from_raw_os_error(libc::EINTR),
    _ => io::Error::new(io::ErrorKind::Interrupted, "try again"),
  }
}

/// Length of the incomplete UTF-8 character at the end of the given bytes.
pub fn incomplete_tail(bytes: &[u8]) -> usize {
  for back in 1..=3.min(bytes.len()) {
    let b = bytes[bytes.len() - back];
    if b >= 0xc0 {
      let need = if b >= 0xf0 {
        4
      } else if b >= 0xe0 {
        3
      } else {
        2
      };
      return if back < need { back } else { 0 };
    }
    if b < 0x80 {
      return 0;
    }
  }
  0
}

/// The simulated source.
pub struct Feed {
  pub data: Vec<u8>,
  pub pos: usize,
  pub steps: Vec<Step>,
  pub next: usize,
  /// Maximum size of deliveries after the trace is used up (0: unlimited).
  pub tail: usize,
  /// Never reports a transient end of file inside a UTF-8 character.
  pub protect_chars: bool,
  pub log: Vec<Out>,
  /// Maximum number of calls before the caller is considered stuck.
  pub budget: usize,
  /// The source is read with system calls.
  pub syscalls: bool,
  /// `(position, outcome)` listener for the driver's event log.
  pub served: u64,
}

impl Feed {
  pub fn new(data: Vec<u8>, steps: Vec<Step>, tail: usize) -> Self {
    let budget = data.len() * 4 + steps.len() * 4 + 4096;
    Self {
      data,
      pos: 0,
      steps,
      next: 0,
      tail,
      protect_chars: true,
      log: Vec::new(),
      budget,
      syscalls: false,
      served: 0,
    }
  }

  /// Serves one call of `read`.
  pub fn serve(&mut self, buf: &mut [u8]) -> Out {
    self.served += 1;
    if self.served as usize > self.budget {
      panic!("livelock: the source was read {} times", self.served);
    }
    if buf.is_empty() {
      self.log.push(Out::Empty);
      return Out::Empty;
    }
    let out = match self.steps.get(self.next).cloned() {
      Some(step) => {
        self.next += 1;
        match step {
          Step::Eintr => Out::Eintr,
          Step::Fail(e) => Out::Fail(e % if self.syscalls { ERRORS } else { KINDS }),
          Step::Eof if !self.protect_chars || incomplete_tail(&self.data[..self.pos]) == 0 => {
            Out::Eof
          }
          Step::Eof => self.give(1, buf),
          Step::Give(n) => self.give(n.max(1), buf),
        }
      }
      None => {
        let n = if self.tail == 0 { usize::MAX } else { self.tail };
        self.give(n, buf)
      }
    };
    self.log.push(out);
    out
  }

  fn give(&mut self, n: usize, buf: &mut [u8]) -> Out {
    let n = n.min(buf.len()).min(self.data.len() - self.pos);
    if n == 0 {
      return Out::Eof;
    }
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Out::Data(n)
  }
}

/// A [`Feed`] behind the `Read` trait, shared with the checker.
#[derive(Clone)]
pub struct SimRead(pub std::rc::Rc<std::cell::RefCell<Feed>>);

impl SimRead {
  pub fn new(feed: Feed) -> Self {
    Self(std::rc::Rc::new(std::cell::RefCell::new(feed)))
  }
}

impl io::Read for SimRead {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    let mut feed = self.0.borrow_mut();
    match feed.serve(buf) {
      Out::Data(n) => Ok(n),
      Out::Eof | Out::Empty => Ok(0),
      Out::Eintr => Err(interrupted(feed.served)),
      Out::Fail(e) => Err(error_of(e)),
    }
  }
}
