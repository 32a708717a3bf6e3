//! What is reported, without the logger: errors are converted to the text that
//! the logger would print, nothing may be printed.

use laps::span::Error;
use simcore::os;
use std::cell::RefCell;

/// Whether reports are printed.
pub const LOGGER: bool = false;

thread_local! {
  static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

const SIMULATED: &str = "\u{1}simulated";

/// An error that was made up by the simulator.
pub fn simulated(fatal: bool) -> Error {
  if fatal {
    Error::Fatal(SIMULATED.into())
  } else {
    Error::Normal(SIMULATED.into())
  }
}

/// Whether the error that was returned by an operation is fatal.
pub fn is_fatal(e: &Error) -> bool {
  let (text, fatal) = match e {
    Error::Normal(s) => (s, false),
    Error::Fatal(s) => (s, true),
  };
  if text != SIMULATED {
    let text = match located(text) {
      Some((at, msg)) => format!("error: {msg}\n  at {at}\n\n"),
      None => format!("error: {text}\n"),
    };
    SEEN.with_borrow_mut(|s| {
      // the same error may be looked at several times
      if s.last() != Some(&text) {
        s.push(text)
      }
    });
  }
  // both ways to ask must agree
  if e.is_fatal() != fatal {
    SEEN.with_borrow_mut(|s| s.push(format!("the error {e:?} does not know its severity\n")));
  }
  fatal
}

/// Splits `input:line:column: message`.
pub fn located(text: &str) -> Option<(&str, &str)> {
  ["<buffer>:", "<stdin>:", "/simfs/"].iter().find(|p| text.starts_with(**p))?;
  let (at, msg) = text.split_once(": ")?;
  let mut parts = at.rsplit(':');
  let number = |s: Option<&str>| s.is_some_and(|s| s.parse::<u32>().is_ok());
  (number(parts.next()) && number(parts.next()) && parts.next().is_some()).then_some((at, msg))
}

/// The reports of the operations since the last call.
pub fn take() -> String {
  let printed = os::take_stderr();
  let text = SEEN.with_borrow_mut(std::mem::take).concat();
  if printed.is_empty() {
    text
  } else {
    format!("UNEXPECTED OUTPUT {:?}, returned {text:?}", String::from_utf8_lossy(&printed))
  }
}
