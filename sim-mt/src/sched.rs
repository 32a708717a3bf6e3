//! Runs simulated threads in a child process, see `sched.c`.

use serde::{Deserialize, Serialize};
use simcore::driver::{in_child, Child};
use simcore::os::{self, Os};
use simcore::{Ctx, Rng, Viol};
use std::collections::BTreeMap;
use std::time::Duration;

/// What decides which thread runs.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sched {
  /// At each point, switches to another thread with a probability that depends
  /// on the kind of the point: one in so many, or never if 0.
  Walk {
    seed: u64,
    atomic: u64,
    memory: u64,
    call: u64,
    spurious: u64,
  },
  /// Random priorities, which change `depth` times within `length` points.
  Priorities {
    seed: u64,
    depth: u64,
    length: u64,
    spurious: u64,
  },
  /// Switches of an execution: at which point, to which thread
  /// (255: a wait returns without reason).
  List(Vec<(u64, u64)>),
}

impl Sched {
  /// A random way to schedule executions of about `length` points.
  /// Switches at accesses to memory are `rare` times less likely than usual.
  pub fn gen(r: &mut Rng, length: u64, rare: u64) -> Self {
    let seed = r.next();
    let spurious = if r.chance(1, 4) { *r.pick(&[2, 10]) } else { 0 };
    match r.below(5) {
      0 => Sched::Priorities {
        seed,
        depth: r.range(0, 6) as u64,
        length: length.max(1),
        spurious,
      },
      1 => Sched::Walk {
        seed,
        atomic: *r.pick(&[1, 2, 4]),
        memory: 0,
        call: *r.pick(&[1, 2, 4]),
        spurious,
      },
      2 => Sched::Walk {
        seed,
        atomic: *r.pick(&[2, 8, 32]),
        memory: *r.pick(&[8, 64, 512]) * rare,
        call: *r.pick(&[1, 4, 16]),
        spurious,
      },
      _ => Sched::Walk {
        seed,
        atomic: *r.pick(&[4, 16, 64, 300]),
        memory: *r.pick(&[0, 0, 1000, 100]) * rare,
        call: *r.pick(&[0, 2, 8, 64]),
        spurious,
      },
    }
  }
}

const MAX_LOG: usize = 200_000;

#[repr(C)]
struct Report {
  steps: u64,
  atomics: u64,
  memory: u64,
  syscalls: u64,
  switches: u64,
  spurious: u64,
  threads: u64,
  hash: u64,
  log_len: u64,
  status: u64,
  log: [u64; MAX_LOG],
}

#[repr(C)]
struct Config {
  mode: u64,
  seed: u64,
  atomic_in: u64,
  memory_in: u64,
  syscall_in: u64,
  spurious_in: u64,
  depth: u64,
  length: u64,
  max_steps: u64,
  list: *const u64,
  list_len: u64,
}

extern "C" {
  fn sim_begin(c: *const Config, r: *mut Report);
  fn sim_end();
  fn sim_point();
  fn sim_clock() -> u64;
}

/// A time stamp, different from all others.
pub fn clock() -> u64 {
  unsafe { sim_clock() }
}

fn point() {
  unsafe { sim_point() }
}

/// The simulated machine of a run.
pub struct Machine<'a> {
  pub sched: &'a Sched,
  pub entropy: u64,
  pub cpus: usize,
  pub max_steps: u64,
}

struct Shared(*mut Report);

impl Shared {
  fn new() -> Self {
    let p = unsafe {
      libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<Report>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
      )
    };
    assert!(p != libc::MAP_FAILED, "HARNESS mmap");
    Self(p as _)
  }
}

impl Drop for Shared {
  fn drop(&mut self) {
    unsafe { libc::munmap(self.0 as _, std::mem::size_of::<Report>()) };
  }
}

#[derive(Serialize, Deserialize)]
struct Outcome {
  viol: Option<(String, String)>,
  counts: BTreeMap<String, u64>,
  logs: Vec<String>,
  nontrivial: bool,
}

thread_local! {
  static DECISIONS: std::cell::RefCell<Vec<(u64, u64)>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// The decisions of the last run of this thread.
pub fn decisions() -> Vec<(u64, u64)> {
  DECISIONS.with_borrow(|d| d.clone())
}

/// Runs `work` in a child process on a simulated machine, then `judge` there,
/// without simulation.
pub fn simulate<T>(
  m: &Machine,
  make_os: impl FnOnce() -> Os,
  ctx: &mut Ctx,
  work: impl FnOnce() -> T,
  judge: impl FnOnce(T, &mut Ctx) -> Result<(), Viol>,
) -> Result<(), Viol> {
  let shared = Shared::new();
  let report = shared.0;
  let child = in_child(Duration::from_secs(60), || {
    let list: Vec<u64> = match m.sched {
      Sched::List(l) => l.iter().map(|(s, t)| s << 8 | (t & 255)).collect(),
      _ => Vec::new(),
    };
    let mut c = Config {
      mode: 2,
      seed: 0,
      atomic_in: 0,
      memory_in: 0,
      syscall_in: 0,
      spurious_in: 0,
      depth: 0,
      length: 0,
      max_steps: m.max_steps,
      list: list.as_ptr(),
      list_len: list.len() as u64,
    };
    match m.sched {
      Sched::Walk {
        seed,
        atomic,
        memory,
        call,
        spurious,
      } => {
        c.mode = 0;
        c.seed = *seed;
        c.atomic_in = *atomic;
        c.memory_in = *memory;
        c.syscall_in = *call;
        c.spurious_in = *spurious;
      }
      Sched::Priorities {
        seed,
        depth,
        length,
        spurious,
      } => {
        c.mode = 1;
        c.seed = *seed;
        c.depth = *depth;
        c.length = *length;
        c.spurious_in = *spurious;
      }
      Sched::List(_) => {}
    }
    os::leave();
    os::enter_shared(m.entropy, m.cpus, make_os(), point);
    let mut inner = Ctx::new(true);
    unsafe { sim_begin(&c, report) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(work));
    unsafe { sim_end() };
    let r = match r {
      Ok(t) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(t, &mut inner))),
      Err(e) => Err(e),
    };
    let r = r.unwrap_or_else(|_| Viol::new("panic", simcore::driver::first_panic()));
    let out = Outcome {
      viol: r.err().map(|v| (v.kind, v.msg)),
      counts: std::mem::take(&mut inner.counts),
      logs: inner.trace.take().unwrap_or_default(),
      nontrivial: inner.nontrivial,
    };
    serde_json::to_vec(&out).unwrap()
  });
  let rep = unsafe { &*report };
  let n = (rep.log_len as usize).min(MAX_LOG);
  let decisions: Vec<(u64, u64)> = rep.log[..n].iter().map(|x| (x >> 8, x & 255)).collect();
  ctx.event(rep.hash);
  ctx.event(rep.steps);
  for (name, k) in [
    ("sim.points", rep.steps),
    ("sim.atomic_accesses", rep.atomics),
    ("sim.memory_accesses", rep.memory),
    ("sim.system_calls", rep.syscalls),
    ("sim.threads", rep.threads),
    ("fault.thread_switch", rep.switches),
    ("fault.spurious_wakeup", rep.spurious),
  ] {
    ctx.count(name, k);
  }
  if let Some(t) = &mut ctx.trace {
    let text: Vec<String> = decisions.iter().take(400).map(|(s, t)| format!("{s}:{t}")).collect();
    t.push(format!("{} points, switches {}", rep.steps, text.join(" ")));
  }
  DECISIONS.with_borrow_mut(|d| *d = decisions);
  match child {
    Child::Done(out) => {
      let o: Outcome = match serde_json::from_slice(&out) {
        Ok(o) => o,
        Err(e) => return Viol::new("harness", format!("HARNESS no outcome of the child: {e}")),
      };
      for l in o.logs {
        ctx.log(|| l);
      }
      for (k, n) in o.counts {
        ctx.count(&k, n);
      }
      ctx.nontrivial = o.nontrivial && rep.switches > 0;
      match o.viol {
        Some((k, m)) => Viol::new(&k, m),
        None => Ok(()),
      }
    }
    _ if rep.status == 1 => Viol::new("deadlock", "no thread can go on"),
    _ if rep.status == 2 => Viol::new("livelock", format!("no end within {} points", m.max_steps)),
    Child::Crash(m) => Viol::new("crash", m),
    Child::Hang => Viol::new("harness", "HARNESS the child hangs"),
  }
}

/// Turns the schedule of a plan into the list of its decisions.
pub fn concrete(v: &serde_json::Value, rerun: impl Fn(&serde_json::Value)) -> Option<serde_json::Value> {
  rerun(v);
  let list = decisions();
  if list.len() >= MAX_LOG {
    return None;
  }
  let mut plan = v["plan"].clone();
  plan["sched"] = serde_json::to_value(Sched::List(list)).ok()?;
  Some(plan)
}
