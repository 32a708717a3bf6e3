//! An allocator that knows what laps holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
  static ACTIVE: Cell<bool> = const { Cell::new(false) };
  static LIVE: Cell<isize> = const { Cell::new(0) };
  static PEAK: Cell<isize> = const { Cell::new(0) };
  static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

/// Every block is preceded by its size if it was allocated by laps, or else 0.
struct Counting;

const ROOM: usize = 16;

fn outer(l: Layout) -> Option<(Layout, usize)> {
  let room = l.align().max(ROOM);
  let size = l.size().checked_add(room)?;
  Some((Layout::from_size_align(size, room).ok()?, room))
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let Some((o, room)) = outer(l) else { return std::ptr::null_mut() };
    let p = System.alloc(o);
    if p.is_null() {
      return p;
    }
    let counted = match ACTIVE.try_with(|a| a.get()) {
      Ok(true) => l.size(),
      _ => 0,
    };
    let _ = LIVE.try_with(|n| n.set(n.get() + counted as isize));
    if counted > 0 {
      let _ = PEAK.try_with(|n| n.set(n.get().max(live())));
    }
    let p = p.add(room);
    (p.sub(ROOM) as *mut usize).write(counted);
    p
  }

  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if let Some((o, room)) = outer(l) {
      let counted = (p.sub(ROOM) as *mut usize).read();
      let _ = LIVE.try_with(|n| n.set(n.get() - counted as isize));
      System.dealloc(p.sub(room), o)
    }
  }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes that were allocated by laps and not freed.
pub fn live() -> isize {
  LIVE.with(|n| n.get())
}

/// The largest number of such bytes since the last call.
pub fn peak() -> isize {
  PEAK.with(|n| n.replace(live()))
}

fn switch<R>(on: bool, f: impl FnOnce() -> R) -> R {
  struct Restore(bool);
  impl Drop for Restore {
    fn drop(&mut self) {
      ACTIVE.with(|a| a.set(self.0))
    }
  }
  let _restore = Restore(ACTIVE.with(|a| a.replace(on)));
  f()
}

/// Runs code of laps.
#[inline(never)]
pub fn laps<R>(f: impl FnOnce() -> R) -> R {
  let here = 0u8;
  STACK.with(|s| s.set((&here as *const u8 as usize, s.get().1)));
  switch(true, f)
}

/// Runs code of the simulator that laps calls, and measures the stack.
#[inline(never)]
pub fn called<R>(f: impl FnOnce() -> R) -> R {
  let here = 0u8;
  STACK.with(|s| {
    let (top, max) = s.get();
    let depth = top.saturating_sub(&here as *const u8 as usize);
    s.set((top, max.max(depth)));
    // stop before the process does
    if depth > 3 << 20 {
      switch(false, || panic!("{depth} bytes of the stack are used"));
    }
  });
  switch(false, f)
}

/// The largest part of the stack that was used since the last call.
pub fn stack() -> usize {
  STACK.with(|s| s.replace((0, 0)).1)
}
