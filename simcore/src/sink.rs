//! A simulated writer with a scripted fault trace.

use crate::feed::{error_name, error_of};
use crate::{Ctx, Rng};
use serde::{Deserialize, Serialize};
use std::io;

/// One step of the trace; each call of `write` takes one step,
/// calls behind the last step take everything.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Take {
  /// Takes at most this number of bytes (at least one).
  Short(usize),
  /// The call is interrupted by a signal.
  Eintr,
  /// The call fails with the given error, see [`error_of`].
  Fail(u8),
  /// The sink is full: nothing is taken.
  Full,
}

/// A writer that does what its script says.
pub struct SimWrite {
  steps: Vec<Take>,
  next: usize,
  /// Everything that was taken.
  pub out: Vec<u8>,
  /// What the first call that failed failed with.
  pub failed: Option<io::ErrorKind>,
}

impl SimWrite {
  pub fn new(steps: &[Take]) -> Self {
    Self { steps: steps.to_vec(), next: 0, out: Vec::new(), failed: None }
  }

  /// Counts what was injected.
  pub fn count(&self, ctx: &mut Ctx) {
    for s in &self.steps[..self.next] {
      match s {
        Take::Short(_) => ctx.count("fault.short_write", 1),
        Take::Eintr => ctx.count("fault.EINTR", 1),
        Take::Fail(e) => ctx.count(&format!("fault.{}", error_name(*e)), 1),
        Take::Full => ctx.count("fault.full_sink", 1),
      }
    }
  }
}

impl io::Write for SimWrite {
  fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
    if buf.is_empty() {
      return Ok(0);
    }
    let step = self.steps.get(self.next).cloned();
    self.next += step.is_some() as usize;
    let n = match step {
      None => buf.len(),
      Some(Take::Short(n)) => n.clamp(1, buf.len()),
      Some(Take::Eintr) => return Err(io::ErrorKind::Interrupted.into()),
      Some(Take::Fail(e)) => {
        let e = error_of(e);
        self.failed.get_or_insert(e.kind());
        return Err(e);
      }
      Some(Take::Full) => {
        self.failed.get_or_insert(io::ErrorKind::WriteZero);
        return Ok(0);
      }
    };
    self.out.extend(&buf[..n]);
    Ok(n)
  }

  fn flush(&mut self) -> io::Result<()> {
    Ok(())
  }
}

/// A trace for about the given number of bytes.
pub fn gen_takes(r: &mut Rng, len: usize, fail: bool) -> Vec<Take> {
  let mut v = Vec::new();
  if r.chance(1, 4) {
    return v;
  }
  let small = r.chance(1, 2);
  let mut left = r.range(0, len);
  while left > 0 && v.len() < 400 {
    match r.below(6) {
      0 => v.push(Take::Eintr),
      _ => {
        let n = if small { r.range(1, 5) } else { r.range(1, 60) };
        left = left.saturating_sub(n);
        v.push(Take::Short(n));
      }
    }
  }
  if fail {
    v.push(if r.chance(1, 5) { Take::Full } else { Take::Fail(r.below(crate::feed::KINDS as usize) as u8) });
  }
  v
}
