//! The process of an example program.

use std::cell::RefCell;

thread_local! {
  static ARGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// The program has exited with the given code.
pub struct Exit(pub i32);

pub fn set_args(args: Vec<String>) {
  ARGS.with(|a| *a.borrow_mut() = args);
}

/// The arguments of the program.
pub fn args() -> std::vec::IntoIter<String> {
  ARGS.with(|a| a.borrow().clone()).into_iter()
}

/// Leaves the program.
pub fn exit(code: i32) -> ! {
  std::panic::resume_unwind(Box::new(Exit(code)))
}
