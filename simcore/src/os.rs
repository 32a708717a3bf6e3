//! The simulated operating system below the standard library.
//!
//! The harness binaries define the libc functions that the standard library
//! calls for randomness, opening files, reading and writing. Inside of a
//! simulated run they are served by the simulator, outside of it they are
//! passed to the kernel.

use crate::feed::{errno_of, Feed, Out};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::ffi::CStr;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

/// Path prefix of simulated files.
pub const ROOT: &str = "/simfs/";

/// A simulated file.
pub enum Node {
  /// Opening the file fails with the given error.
  OpenError(u8),
  /// Every `open` of the file takes the next feed of the list,
  /// the last one is used if there are no more feeds.
  Feeds(Vec<Rc<RefCell<Feed>>>),
  /// The first `open` takes the feed, later ones read the data from its start.
  Data(Option<Rc<RefCell<Feed>>>, Vec<u8>),
}

/// Script of one call of `write` on the standard error or output.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum WStep {
  /// Accepts at most this number of bytes.
  Short(usize),
  /// The call is interrupted by a signal.
  Eintr,
}

/// State of the simulated operating system of a run.
#[derive(Default)]
pub struct Os {
  pub stderr: Vec<u8>,
  /// What was written to the standard output, which is only simulated if this
  /// is not [`None`].
  pub stdout: Option<Vec<u8>>,
  pub wsteps: Vec<WStep>,
  pub wnext: usize,
  pub wcount: u64,
  pub files: Vec<(String, Node)>,
  pub fds: Vec<(i32, Rc<RefCell<Feed>>)>,
  pub stdin: Option<Rc<RefCell<Feed>>>,
  pub opens: u64,
  pub open_errors: u64,
  pub short_writes: u64,
  pub eintr_writes: u64,
}

thread_local! {
  static OS: RefCell<Option<Os>> = const { RefCell::new(None) };
  static ACTIVE: Cell<bool> = const { Cell::new(false) };
  static ENTROPY: Cell<u64> = const { Cell::new(0) };
  static ENTROPY_ON: Cell<bool> = const { Cell::new(false) };
}

/// The system of a simulation with several threads, which never run at the
/// same time.
struct Shared(UnsafeCell<(Os, u64)>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
static SHARED: OnceLock<Shared> = OnceLock::new();
static POINT: OnceLock<fn()> = OnceLock::new();
static CPUS: AtomicUsize = AtomicUsize::new(1);

/// Starts simulation on all threads, for the rest of the process.
/// System calls call `point` first.
#[inline(never)]
pub fn enter_shared(entropy: u64, cpus: usize, os: Os, point: fn()) {
  CPUS.store(cpus, Ordering::SeqCst);
  let _ = POINT.set(point);
  let _ = SHARED.set(Shared(UnsafeCell::new((os, entropy))));
}

/// Takes everything written to the standard error so far by all threads.
#[inline(never)]
pub fn take_shared_stderr() -> Vec<u8> {
  active(|os| std::mem::take(&mut os.stderr)).unwrap_or_default()
}

/// Number of opened files and of faults of the shared system.
#[inline(never)]
pub fn shared_counts() -> [u64; 4] {
  active(|o| [o.opens, o.open_errors, o.short_writes, o.eintr_writes]).unwrap_or_default()
}

fn point() {
  if let Some(p) = POINT.get() {
    p()
  }
}

/// Starts simulation on the current thread.
pub fn enter(entropy: u64) {
  ENTROPY.with(|e| e.set(entropy));
  ENTROPY_ON.with(|e| e.set(true));
  OS.with(|os| *os.borrow_mut() = Some(Os::default()));
  ACTIVE.with(|a| a.set(true));
}

/// Stops simulation on the current thread.
pub fn leave() -> Os {
  ACTIVE.with(|a| a.set(false));
  OS.with(|os| os.borrow_mut().take()).unwrap_or_default()
}

/// Accesses the state of the simulated operating system.
pub fn with<R>(f: impl FnOnce(&mut Os) -> R) -> R {
  OS.with(|os| f(os.borrow_mut().as_mut().expect("simulator is not active")))
}

/// Takes everything written to the standard error so far.
pub fn take_stderr() -> Vec<u8> {
  with(|os| std::mem::take(&mut os.stderr))
}

fn active<R>(f: impl FnOnce(&mut Os) -> R) -> Option<R> {
  if let Some(s) = SHARED.get() {
    // only one thread runs
    return Some(f(unsafe { &mut (*s.0.get()).0 }));
  }
  ACTIVE
    .try_with(|a| a.get())
    .unwrap_or(false)
    .then(|| OS.with(|os| os.try_borrow_mut().ok().and_then(|mut o| o.as_mut().map(f))))
    .flatten()
}

fn set_errno(e: i32) {
  unsafe { *libc::__errno_location() = e };
}

/// Makes sure that the functions below are linked.
pub fn init() {
  std::hint::black_box(getrandom as *const () as usize);
  std::hint::black_box(read as *const () as usize);
  std::hint::black_box(write as *const () as usize);
  std::hint::black_box(open64 as *const () as usize);
  std::hint::black_box(openat64 as *const () as usize);
  std::hint::black_box(close as *const () as usize);
  std::hint::black_box(sched_getaffinity as *const () as usize);
  std::env::set_var("NO_COLOR", "1");
  std::env::remove_var("CLICOLOR_FORCE");
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
  let shared = SHARED.get();
  if shared.is_some() || ENTROPY_ON.try_with(|e| e.get()).unwrap_or(false) {
    let mut s = match shared {
      Some(s) => (*s.0.get()).1,
      None => ENTROPY.with(|e| e.get()),
    };
    for i in 0..len {
      s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
      *buf.add(i) = (crate::rng::mix(s) >> 24) as u8;
    }
    match shared {
      Some(x) => (*x.0.get()).1 = s,
      None => ENTROPY.with(|e| e.set(s)),
    }
    return len as isize;
  }
  libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
  point();
  let feed = active(|os| {
    if fd == 0 {
      return os.stdin.clone();
    }
    os.fds.iter().rev().find(|(f, _)| *f == fd).map(|(_, f)| f.clone())
  })
  .flatten();
  if let Some(feed) = feed {
    let buf = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    let mut feed = feed.borrow_mut();
    feed.syscalls = true;
    return match feed.serve(buf) {
      Out::Data(n) => n as isize,
      Out::Eof | Out::Empty => 0,
      Out::Eintr => {
        set_errno(libc::EINTR);
        -1
      }
      Out::Fail(e) => {
        set_errno(errno_of(e));
        -1
      }
    };
  }
  libc::syscall(libc::SYS_read, fd, buf, len) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
  point();
  if fd == 2 || (fd == 1 && active(|os| os.stdout.is_some()) == Some(true)) {
    let out = active(|os| {
      os.wcount += 1;
      if os.wcount > 5_000_000 {
        return Some(len as isize);
      }
      let step = os.wsteps.get(os.wnext).cloned();
      os.wnext += 1;
      let n = match step {
        Some(WStep::Eintr) => {
          os.eintr_writes += 1;
          return None;
        }
        Some(WStep::Short(n)) => {
          let n = n.max(1).min(len);
          os.short_writes += (n < len) as u64;
          n
        }
        None => len,
      };
      let bytes = std::slice::from_raw_parts(buf as *const u8, n);
      match &mut os.stdout {
        Some(out) if fd == 1 => out.extend_from_slice(bytes),
        _ => os.stderr.extend_from_slice(bytes),
      }
      Some(n as isize)
    });
    match out {
      Some(Some(n)) => return n,
      Some(None) => {
        set_errno(libc::EINTR);
        return -1;
      }
      None => {}
    }
  }
  libc::syscall(libc::SYS_write, fd, buf, len) as isize
}

/// Handles an `open` of a simulated file.
unsafe fn sim_open(path: *const libc::c_char) -> Option<i32> {
  let path = CStr::from_ptr(path).to_str().ok()?;
  if path.starts_with("/proc/self/cgroup") && SHARED.get().is_some() {
    // no limit of processors
    set_errno(libc::ENOENT);
    return Some(-1);
  }
  if !path.starts_with(ROOT) {
    return None;
  }
  point();
  active(|os| {
    os.opens += 1;
    let node = os.files.iter_mut().find(|(p, _)| p == path);
    match node {
      None => {
        os.open_errors += 1;
        set_errno(libc::ENOENT);
        -1
      }
      Some((_, Node::OpenError(e))) => {
        os.open_errors += 1;
        set_errno(errno_of(*e));
        -1
      }
      Some((_, node)) => {
        let feed = match node {
          Node::Feeds(fs) if fs.len() > 1 => fs.remove(0),
          Node::Feeds(fs) => fs[0].clone(),
          Node::Data(first, data) => first
            .take()
            .unwrap_or_else(|| Rc::new(RefCell::new(Feed::new(data.clone(), Vec::new(), 0)))),
          Node::OpenError(_) => unreachable!(),
        };
        let fd = libc::syscall(
          libc::SYS_openat,
          libc::AT_FDCWD,
          c"/dev/null".as_ptr(),
          libc::O_RDONLY | libc::O_CLOEXEC,
        ) as i32;
        os.fds.retain(|(f, _)| *f != fd);
        os.fds.push((fd, feed));
        fd
      }
    }
  })
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
  sim_open(path).unwrap_or_else(|| {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32
  })
}

#[no_mangle]
pub unsafe extern "C" fn openat64(
  dir: i32,
  path: *const libc::c_char,
  flags: i32,
  mode: libc::mode_t,
) -> i32 {
  sim_open(path)
    .unwrap_or_else(|| libc::syscall(libc::SYS_openat, dir, path, flags, mode) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
  active(|os| os.fds.retain(|(f, _)| *f != fd));
  libc::syscall(libc::SYS_close, fd) as i32
}

/// Every simulated machine has one processor.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(
  pid: libc::pid_t,
  size: usize,
  set: *mut libc::cpu_set_t,
) -> i32 {
  if SHARED.get().is_some() || ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..CPUS.load(Ordering::SeqCst).min(64) {
      *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    return 0;
  }
  let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
  if r < 0 {
    return -1;
  }
  let r = r as usize;
  if r < size {
    std::ptr::write_bytes((set as *mut u8).add(r), 0, size - r);
  }
  0
}
