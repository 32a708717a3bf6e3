//! What is reported, with the logger: the text that is printed.

use laps::span::Error;
use simcore::os;

/// Whether reports are printed.
#[allow(dead_code)]
pub const LOGGER: bool = true;

/// An error that was made up by the simulator.
#[allow(dead_code)]
pub fn simulated(fatal: bool) -> Error {
  if fatal {
    Error::Fatal
  } else {
    Error::Normal
  }
}

/// Whether the error that was returned by an operation is fatal.
pub fn is_fatal(e: &Error) -> bool {
  e.is_fatal()
}

/// The reports of the operations since the last call.
pub fn take() -> String {
  String::from_utf8_lossy(&os::take_stderr()).into_owned()
}
