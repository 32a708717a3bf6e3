//! Batch driver: seeds, workers, determinism self-check, minimisation,
//! replay files and evidence.

use crate::{os, rng, shrink, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read as _, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// A violation of a property.
#[derive(Clone, Debug)]
pub struct Viol {
  /// Class of the violation, kept fixed while minimising.
  pub kind: String,
  pub msg: String,
}

impl Viol {
  pub fn new<T>(kind: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
      kind: kind.into(),
      msg: msg.into(),
    })
  }
}

/// Fails the run with a violation if the condition does not hold.
#[macro_export]
macro_rules! ensure {
  ($cond:expr, $kind:expr, $($arg:tt)+) => {
    if !$cond {
      return Err($crate::Viol { kind: ($kind).into(), msg: format!($($arg)+) });
    }
  };
}

/// Per-run context: event log, fault counters, probes.
pub struct Ctx {
  pub counts: BTreeMap<String, u64>,
  pub hash: u64,
  pub events: u64,
  pub trace: Option<Vec<String>>,
  pub nontrivial: bool,
}

impl Ctx {
  pub fn new(verbose: bool) -> Self {
    Self {
      counts: BTreeMap::new(),
      hash: 0xcbf2_9ce4_8422_2325,
      events: 0,
      trace: verbose.then(Vec::new),
      nontrivial: false,
    }
  }

  /// Appends an event to the event log.
  pub fn event(&mut self, code: u64) {
    self.events += 1;
    self.hash = rng::mix(self.hash ^ code);
  }

  /// Appends a textual event to the event log.
  pub fn log(&mut self, text: impl FnOnce() -> String) {
    let text = text();
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in text.bytes() {
      h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    self.event(h);
    if let Some(t) = &mut self.trace {
      t.push(text);
    }
  }

  /// Counts a fault, probe or other occurrence.
  pub fn count(&mut self, name: &str, n: u64) {
    if n > 0 {
      *self.counts.entry(name.into()).or_default() += n;
    }
  }

  /// Counts what the source did.
  pub fn count_feed(&mut self, feed: &crate::Feed) {
    use crate::feed::{error_name, Out};
    for o in &feed.log {
      match o {
        Out::Data(_) => self.count("sim.reads", 1),
        Out::Eintr => self.count("fault.EINTR", 1),
        Out::Fail(e) => self.count(&format!("fault.{}", error_name(*e)), 1),
        Out::Eof => self.count("sim.eof", 1),
        Out::Empty => self.count("sim.empty_reads", 1),
      }
    }
    // ends of the file that data follows
    let transient = feed.log.windows(2).filter(|w| w[0] == Out::Eof && w[1] != Out::Eof).count();
    self.count("fault.transient_eof", transient as u64);
    let shorts = feed.log.iter().filter(|o| matches!(o, Out::Data(_))).count();
    self.count("fault.short_read", shorts.saturating_sub(1) as u64);
  }
}

const TIME: &str = "laps reads no clock and arms no timer: simulated time is counted in events";

/// A property whose plan type has been erased.
pub struct Prop {
  pub id: &'static str,
  pub rule: &'static str,
  pub real: &'static [&'static str],
  pub stub: &'static [&'static str],
  pub assumptions: &'static [&'static str],
  pub runs_quick: u64,
  pub runs_thorough: u64,
  pub gen_json: Box<dyn Fn(u64, bool) -> Value>,
  pub run_seed: Box<dyn Fn(u64, bool, &mut Ctx) -> Result<(), Viol>>,
  pub run_json: Box<dyn Fn(&Value, &mut Ctx) -> Option<Result<(), Viol>>>,
  /// Replaces decisions that follow from seeds by lists of decisions that can
  /// be minimised.
  pub concrete: Option<Box<dyn Fn(&Value) -> Option<Value>>>,
  /// How simulated time is measured.
  pub time: &'static str,
}

impl Prop {
  #[allow(clippy::too_many_arguments)]
  pub fn new<P, G, R>(id: &'static str, runs_quick: u64, runs_thorough: u64, gen: G, run: R) -> Self
  where
    P: Serialize + DeserializeOwned + 'static,
    G: Fn(&mut Rng, bool) -> P + 'static + Clone,
    R: Fn(&P, &mut Ctx) -> Result<(), Viol> + 'static + Clone,
  {
    let (g1, g2) = (gen.clone(), gen);
    let (r1, r2) = (run.clone(), run);
    Self {
      id,
      rule: "",
      real: &[],
      stub: &[],
      assumptions: &[],
      runs_quick,
      runs_thorough,
      gen_json: Box::new(move |seed, deep| {
        serde_json::to_value(g1(&mut Rng::new(seed), deep)).unwrap()
      }),
      run_seed: Box::new(move |seed, deep, ctx| {
        let plan = g2(&mut Rng::new(seed), deep);
        sandboxed(seed_entropy(seed), || r1(&plan, ctx))
      }),
      run_json: Box::new(move |v, ctx| {
        let entropy = v["entropy"].as_u64().unwrap_or(0);
        let plan: P = serde_json::from_value(v["plan"].clone()).ok()?;
        Some(sandboxed(entropy, || r2(&plan, ctx)))
      }),
      concrete: None,
      time: TIME,
    }
  }

  /// A property that is decided by the runs of several others,
  /// which are weighted.
  pub fn any(id: &'static str, runs_quick: u64, runs_thorough: u64, parts: Vec<(usize, Prop)>) -> Self {
    let parts = std::rc::Rc::new(parts);
    let pick = |parts: &[(usize, Prop)], seed: u64| {
      let w: Vec<usize> = parts.iter().map(|p| p.0).collect();
      Rng::new(rng::mix(seed ^ 0x7061_7274)).weighted(&w)
    };
    let (p1, p2, p3) = (parts.clone(), parts.clone(), parts);
    Self {
      id,
      rule: "",
      real: &[],
      stub: &[],
      assumptions: &[],
      runs_quick,
      runs_thorough,
      gen_json: Box::new(move |seed, deep| {
        let p = &p1[pick(&p1, seed)].1;
        serde_json::json!({ "part": p.id, "plan": (p.gen_json)(seed, deep) })
      }),
      run_seed: Box::new(move |seed, deep, ctx| {
        let p = &p2[pick(&p2, seed)].1;
        ctx.count(p.id, 1);
        (p.run_seed)(seed, deep, ctx)
      }),
      run_json: Box::new(move |v, ctx| {
        let part = v["plan"]["part"].as_str()?;
        let p = &p3.iter().find(|p| p.1.id == part)?.1;
        let inner = serde_json::json!({ "entropy": v["entropy"], "plan": v["plan"]["plan"] });
        (p.run_json)(&inner, ctx)
      }),
      concrete: None,
      time: TIME,
    }
  }

  /// The same runs, of which only needless calls of the source are judged.
  pub fn only_lazy(self) -> Self {
    let (f, g) = (self.run_seed, self.run_json);
    let some = |r: Result<Option<()>, Viol>| r.map(|_| ());
    Self {
      run_seed: Box::new(move |seed, deep, ctx| some(crate::model::only_lazy(|| f(seed, deep, ctx)))),
      run_json: Box::new(move |v, ctx| {
        let mut known = true;
        let r = crate::model::only_lazy(|| {
          let r = g(v, ctx);
          known = r.is_some();
          r.unwrap_or(Ok(()))
        });
        known.then(|| some(r))
      }),
      ..self
    }
  }

  /// The same runs, each in a process of its own: global state of the code
  /// under test always starts afresh.
  pub fn isolated(self) -> Self {
    let (f, g) = (self.run_seed, self.run_json);
    Self {
      run_seed: Box::new(move |seed, deep, ctx| isolated(ctx, |c| Some(f(seed, deep, c))).unwrap_or(Ok(()))),
      run_json: Box::new(move |v, ctx| isolated(ctx, |c| g(v, c))),
      ..self
    }
  }

  pub fn concrete(mut self, f: impl Fn(&Value) -> Option<Value> + 'static) -> Self {
    self.concrete = Some(Box::new(f));
    self
  }
  pub fn time(mut self, time: &'static str) -> Self {
    self.time = time;
    self
  }
  pub fn rule(mut self, rule: &'static str) -> Self {
    self.rule = rule;
    self
  }
  pub fn real(mut self, real: &'static [&'static str]) -> Self {
    self.real = real;
    self
  }
  pub fn stub(mut self, stub: &'static [&'static str]) -> Self {
    self.stub = stub;
    self
  }
  pub fn assumptions(mut self, a: &'static [&'static str]) -> Self {
    self.assumptions = a;
    self
  }
}

fn seed_entropy(seed: u64) -> u64 {
  rng::mix(seed ^ 0x656e_7472_6f70_79)
}

thread_local! {
  static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs a simulation inside of the simulated operating system,
/// panics of the code under test are violations.
fn sandboxed(entropy: u64, f: impl FnOnce() -> Result<(), Viol>) -> Result<(), Viol> {
  os::enter(entropy);
  let r = catch_unwind(AssertUnwindSafe(f));
  os::leave();
  match r {
    Ok(r) => r,
    Err(_) => {
      let msg = LAST_PANIC.with(|p| p.borrow().clone());
      let kind = if msg.contains("livelock") {
        "livelock"
      } else if msg.contains("HARNESS") {
        "harness"
      } else {
        "panic"
      };
      Err(Viol {
        kind: kind.into(),
        msg,
      })
    }
  }
}

/// The message of the first panic of any thread.
pub fn first_panic() -> String {
  FIRST_PANIC.get().cloned().unwrap_or_default()
}

static FIRST_PANIC: std::sync::OnceLock<String> = std::sync::OnceLock::new();

/// Runs `f` on a fresh thread (with fresh per-thread state of the standard library).
fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
  std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(64 << 20)
      .spawn_scoped(s, f)
      .expect("spawn")
      .join()
      .expect("simulation thread")
  })
}

struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
  fn get(self) -> T {
    self.0
  }
}

fn run_index(p: &Prop, seed: u64, deep: bool, verbose: bool) -> (Result<(), Viol>, Ctx) {
  let ptr = SendPtr(p as *const Prop);
  let r = on_thread(move || {
    let p = unsafe { &*ptr.get() };
    let mut ctx = Ctx::new(verbose);
    let r = (p.run_seed)(seed, deep, &mut ctx);
    SendPtr((r, ctx))
  });
  r.get()
}

fn run_value(p: &Prop, v: &Value, verbose: bool) -> Option<(Result<(), Viol>, Ctx)> {
  let ptr = SendPtr((p as *const Prop, v as *const Value));
  let r = on_thread(move || {
    let (p, v) = ptr.get();
    let (p, v) = unsafe { (&*p, &*v) };
    let mut ctx = Ctx::new(verbose);
    let r = (p.run_json)(v, &mut ctx);
    SendPtr(r.map(|r| (r, ctx)))
  });
  r.get()
}

/// Keeps a run that allocates without end from taking the machine down.
fn limit_memory() {
  let l = libc::rlimit {
    rlim_cur: 3 << 30,
    rlim_max: 3 << 30,
  };
  unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

/// Memory shared between the driver and its workers.
struct Shm {
  ptr: *mut AtomicU64,
}

impl Shm {
  fn new(n: usize) -> Self {
    let ptr = unsafe {
      libc::mmap(
        std::ptr::null_mut(),
        n * 8,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
      )
    };
    assert!(ptr != libc::MAP_FAILED, "mmap");
    Self { ptr: ptr as _ }
  }
  fn at(&self, i: usize) -> &AtomicU64 {
    unsafe { &*self.ptr.add(i) }
  }
}

/// Result of a run in a child process.
#[derive(Debug, Clone)]
pub enum Child {
  Done(Vec<u8>),
  Crash(String),
  Hang,
}

/// Runs `f` in a forked child and returns what it wrote.
pub fn in_child(limit: Duration, f: impl FnOnce() -> Vec<u8>) -> Child {
  let mut fds = [0i32; 2];
  assert!(unsafe { libc::pipe(fds.as_mut_ptr()) } == 0, "pipe");
  let pid = unsafe { libc::fork() };
  assert!(pid >= 0, "fork");
  if pid == 0 {
    unsafe { libc::close(fds[0]) };
    limit_memory();
    let out = catch_unwind(AssertUnwindSafe(f)).unwrap_or_default();
    let mut file = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
    let _ = file.write_all(&out);
    let _ = file.flush();
    unsafe { libc::_exit(0) };
  }
  unsafe { libc::close(fds[1]) };
  let mut out = Vec::new();
  let start = Instant::now();
  let mut hang = false;
  loop {
    let mut p = libc::pollfd {
      fd: fds[0],
      events: libc::POLLIN,
      revents: 0,
    };
    unsafe { libc::poll(&mut p, 1, 200) };
    if p.revents != 0 {
      let mut buf = [0u8; 65536];
      let n = unsafe { libc::read(fds[0], buf.as_mut_ptr() as _, buf.len()) };
      if n <= 0 {
        break;
      }
      out.extend_from_slice(&buf[..n as usize]);
    }
    if start.elapsed() > limit {
      hang = true;
      unsafe { libc::kill(pid, libc::SIGKILL) };
      break;
    }
  }
  unsafe { libc::close(fds[0]) };
  let mut status = 0;
  unsafe { libc::waitpid(pid, &mut status, 0) };
  if hang {
    Child::Hang
  } else if libc::WIFSIGNALED(status) {
    Child::Crash(format!("killed by signal {}", libc::WTERMSIG(status)))
  } else if libc::WEXITSTATUS(status) != 0 {
    Child::Crash(format!("exited with status {}", libc::WEXITSTATUS(status)))
  } else {
    Child::Done(out)
  }
}

const HANG_LIMIT: Duration = Duration::from_secs(90);

/// Longest run in a process of its own.
const RUN_LIMIT: Duration = Duration::from_secs(60);

/// Runs `f` in a forked child, as if it ran here.
fn isolated(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> Option<Result<(), Viol>>) -> Option<Result<(), Viol>> {
  let mut inner = Ctx::new(ctx.trace.is_some());
  let fail = |kind: &str, msg: String| Some(Viol::new(kind, msg));
  let out = match in_child(RUN_LIMIT, || {
    let r = f(&mut inner);
    let known = r.is_some();
    let viol = r.and_then(|r| r.err()).map(|v| (v.kind, v.msg));
    serde_json::to_vec(&(known, viol, &inner.counts, inner.hash, inner.events, &inner.trace, inner.nontrivial)).unwrap()
  }) {
    Child::Done(out) => out,
    Child::Crash(m) => return fail("crash", m),
    Child::Hang => return fail("hang", format!("no progress within {RUN_LIMIT:?}")),
  };
  type Report = (bool, Option<(String, String)>, BTreeMap<String, u64>, u64, u64, Option<Vec<String>>, bool);
  let Ok((known, viol, counts, hash, events, trace, nontrivial)) = serde_json::from_slice::<Report>(&out) else {
    return fail("crash", "the run ended without a result".into());
  };
  for (k, n) in counts {
    ctx.count(&k, n);
  }
  (ctx.hash, ctx.events, ctx.trace) = (hash, events, trace);
  ctx.nontrivial |= nontrivial;
  known.then_some(match viol {
    None => Ok(()),
    Some((kind, msg)) => Viol::new(&kind, msg),
  })
}

/// Executes one plan, or a history of runs in one process.
fn run_any(p: &Prop, v: &Value) -> Option<Result<(), Viol>> {
  match v["history"].as_array() {
    None => run_value(p, v, false).map(|r| r.0),
    Some(seeds) => {
      let deep = v["tier"] == "thorough";
      for s in seeds {
        let (r, _) = run_index(p, s.as_u64()?, deep, false);
        if r.is_err() {
          return Some(r);
        }
      }
      Some(Ok(()))
    }
  }
}

/// Executes a replay value in a child, returns the violation if any.
fn replay_in_child(p: &Prop, v: &Value, limit: Duration) -> Option<Option<Viol>> {
  match in_child(limit, || match run_any(p, v) {
    None => b"bad".to_vec(),
    Some(Ok(())) => b"ok".to_vec(),
    Some(Err(e)) => format!("v{}\n{}", e.kind, e.msg).into_bytes(),
  }) {
    Child::Done(out) => {
      let s = String::from_utf8_lossy(&out).into_owned();
      if s == "ok" {
        Some(None)
      } else if let Some(rest) = s.strip_prefix('v') {
        let (kind, msg) = rest.split_once('\n').unwrap_or((rest, ""));
        Some(Some(Viol {
          kind: kind.into(),
          msg: msg.into(),
        }))
      } else {
        None
      }
    }
    Child::Crash(m) => Some(Some(Viol {
      kind: "crash".into(),
      msg: m,
    })),
    Child::Hang => Some(Some(Viol {
      kind: "hang".into(),
      msg: format!("no progress within {limit:?}"),
    })),
  }
}

struct Args {
  prop: String,
  tier: String,
  seed: u64,
  replay: Option<String>,
  runs: Option<u64>,
  out: String,
  secs: u64,
  workers: usize,
  dump: Option<u64>,
}

fn parse_args() -> Args {
  let mut a = Args {
    prop: String::new(),
    tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
    seed: std::env::var("VERIF_SEED")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or(1),
    replay: None,
    runs: None,
    out: "/verif".into(),
    secs: 0,
    workers: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
    dump: None,
  };
  let mut it = std::env::args().skip(1);
  while let Some(k) = it.next() {
    let mut v = || it.next().expect("missing value");
    match k.as_str() {
      "--prop" => a.prop = v(),
      "--tier" => a.tier = v(),
      "--seed" => a.seed = v().parse().expect("seed"),
      "--replay" => a.replay = Some(v()),
      "--runs" => a.runs = Some(v().parse().expect("runs")),
      "--out" => a.out = v(),
      "--secs" => a.secs = v().parse().expect("secs"),
      "--workers" => a.workers = v().parse().expect("workers"),
      "--dump" => a.dump = Some(v().parse().expect("dump")),
      _ => {
        eprintln!("unknown argument {k}");
        std::process::exit(2);
      }
    }
  }
  a
}

/// Entry point of the harness binaries.
pub fn main_with(props: Vec<Prop>) -> ! {
  os::init();
  std::panic::set_hook(Box::new(|info| {
    let loc = info
      .location()
      .map(|l| {
        let f = l.file();
        let f = f.rsplit("/repo/").next().unwrap_or(f);
        format!("{}:{}", f, l.line())
      })
      .unwrap_or_default();
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_default();
    let _ = FIRST_PANIC.set(format!("panicked at {loc}: {msg}"));
    let _ = LAST_PANIC.try_with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        *p = format!("panicked at {loc}: {msg}");
      }
    });
  }));
  let args = parse_args();
  let code = real_main(&args, props);
  std::process::exit(code)
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
  props.iter().find(|p| p.id == id).unwrap_or_else(|| {
    eprintln!("HARNESS-ERROR: unknown property {id}");
    std::process::exit(2)
  })
}

fn real_main(args: &Args, props: Vec<Prop>) -> i32 {
  if let Some(path) = &args.replay {
    return replay(path, &props);
  }
  let p = find(&props, &args.prop);
  let deep = args.tier == "thorough";
  let domain = p.id.bytes().fold(0u64, |h, b| h * 256 + b as u64);
  let seed_of = |i: u64| rng::derive(args.seed, domain, i);
  if let Some(i) = args.dump {
    let s = seed_of(i);
    println!("{}", serde_json::to_string(&(p.gen_json)(s, deep)).unwrap());
    let (r, ctx) = run_index(p, s, deep, true);
    for t in ctx.trace.unwrap_or_default() {
      println!("  {t}");
    }
    println!("{r:?} {:?} nontrivial={}", ctx.counts, ctx.nontrivial);
    return 0;
  }
  let runs = args.runs.unwrap_or(if deep { p.runs_thorough } else { p.runs_quick });
  let cap = Duration::from_secs(match args.secs {
    0 if deep => 3600,
    0 => 420,
    s => s,
  });
  println!(
    "{}: simulation with VERIF_SEED={} tier={} runs={} workers={}",
    p.id, args.seed, args.tier, runs, args.workers
  );
  let start = Instant::now();
  let batch = run_batch(p, args, deep, runs, cap, &seed_of);
  let mut code = 0;
  let mut violations = 0;
  let mut replay_path = String::new();
  if let Some((i, viol)) = &batch.violation {
    violations = 1;
    code = 1;
    if viol.kind == "harness" {
      println!("HARNESS-ERROR: run {i}: {}", viol.msg);
      return 3;
    }
    println!("run {i}: [{}] {}", viol.kind, viol.msg);
    match minimise_and_write(p, args, deep, *i, &seed_of, viol) {
      Ok((path, small)) => {
        println!("minimised: [{}] {}", small.kind, small.msg);
        replay_path = path;
      }
      Err(e) => {
        println!("HARNESS-ERROR: {e}");
        return 3;
      }
    }
  } else {
    // determinism self-check: other processes, other order, same event logs
    let n = batch.done.min(if deep { 4096 } else { 512 });
    let stride = (batch.done / n.max(1)).max(1);
    let idx: Vec<u64> = (0..n).map(|k| k * stride).collect();
    match check_determinism(p, deep, &idx, &batch.hashes, &seed_of) {
      Ok(()) => {}
      Err(i) => {
        println!("HARNESS-ERROR: run {i} is not deterministic");
        return 3;
      }
    }
  }
  let wall = start.elapsed().as_secs_f64();
  write_evidence(p, args, &batch, wall, violations);
  println!(
    "{}: {} runs, {} distinct non-trivial event logs, {:.1} s, counts {:?}",
    p.id, batch.done, batch.distinct, wall, batch.counts
  );
  for k in batch.counts.keys() {
    if let Some(k) = k.strip_prefix("known.") {
      println!("KNOWN-FINDING: property={} {k}", p.id);
    }
  }
  if code == 1 {
    println!("VIOLATION property={} replay={}", p.id, replay_path);
  } else {
    println!("{}: ok", p.id);
  }
  code
}

struct Batch {
  done: u64,
  violation: Option<(u64, Viol)>,
  counts: BTreeMap<String, u64>,
  hashes: BTreeMap<u64, u64>,
  distinct: u64,
  events: u64,
  samples: Vec<Value>,
  search_s: f64,
}

fn run_batch(
  p: &Prop,
  args: &Args,
  deep: bool,
  runs: u64,
  cap: Duration,
  seed_of: &dyn Fn(u64) -> u64,
) -> Batch {
  let start = Instant::now();
  let workers = args.workers.max(1);
  // slot 0: smallest violating index; per worker: current index + 1, counter
  let shm = Shm::new(1 + workers * 2);
  shm.at(0).store(u64::MAX, Ordering::SeqCst);
  let dir = std::env::temp_dir().join(format!("sim-{}-{}", p.id, std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch directory");
  let mut pids = Vec::new();
  for w in 0..workers {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
      limit_memory();
      let r = catch_unwind(AssertUnwindSafe(|| {
        worker(p, deep, w, workers, runs, start + cap, &shm, &dir, seed_of)
      }));
      unsafe { libc::_exit(if r.is_ok() { 0 } else { 4 }) };
    }
    pids.push(pid);
  }
  // wait for the workers, watch their progress
  let mut violation: Option<(u64, Viol)> = None;
  let mut note = |i: u64, v: Viol| {
    shm.at(0).fetch_min(i, Ordering::SeqCst);
    if violation.as_ref().map_or(true, |(j, _)| i < *j) {
      violation = Some((i, v));
    }
  };
  let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers];
  let mut alive: Vec<bool> = vec![true; workers];
  while alive.iter().any(|a| *a) {
    std::thread::sleep(Duration::from_millis(20));
    for w in 0..workers {
      if !alive[w] {
        continue;
      }
      let cur = shm.at(1 + w * 2).load(Ordering::SeqCst);
      let cnt = shm.at(2 + w * 2).load(Ordering::SeqCst);
      let mut status = 0;
      let r = unsafe { libc::waitpid(pids[w], &mut status, libc::WNOHANG) };
      if r == pids[w] {
        alive[w] = false;
        if libc::WIFSIGNALED(status) || libc::WEXITSTATUS(status) != 0 {
          let msg = if libc::WIFSIGNALED(status) {
            format!("killed by signal {}", libc::WTERMSIG(status))
          } else {
            format!("exited with status {}", libc::WEXITSTATUS(status))
          };
          note(
            cur.saturating_sub(1),
            Viol {
              kind: "crash".into(),
              msg,
            },
          );
        }
        continue;
      }
      if cnt != last[w].0 {
        last[w] = (cnt, Instant::now());
      } else if last[w].1.elapsed() > HANG_LIMIT {
        unsafe { libc::kill(pids[w], libc::SIGKILL) };
        unsafe { libc::waitpid(pids[w], &mut status, 0) };
        alive[w] = false;
        note(
          cur.saturating_sub(1),
          Viol {
            kind: "hang".into(),
            msg: format!("no progress within {HANG_LIMIT:?}"),
          },
        );
      }
    }
  }
  // merge the results
  let mut batch = Batch {
    done: 0,
    violation: None,
    counts: BTreeMap::new(),
    hashes: BTreeMap::new(),
    distinct: 0,
    events: 0,
    samples: Vec::new(),
    search_s: start.elapsed().as_secs_f64(),
  };
  let mut distinct: HashSet<u64> = HashSet::new();
  for w in 0..workers {
    let path = dir.join(format!("{w}.json"));
    if let Ok(s) = std::fs::read(&path) {
      let v: Value = serde_json::from_slice(&s).expect("worker result");
      batch.done += v["done"].as_u64().unwrap();
      batch.events += v["events"].as_u64().unwrap();
      for (k, n) in v["counts"].as_object().unwrap() {
        *batch.counts.entry(k.clone()).or_default() += n.as_u64().unwrap();
      }
      if let Some(i) = v["viol"]["run"].as_u64() {
        note(
          i,
          Viol {
            kind: v["viol"]["kind"].as_str().unwrap().into(),
            msg: v["viol"]["msg"].as_str().unwrap().into(),
          },
        );
      }
      for s in v["samples"].as_array().unwrap() {
        if batch.samples.len() < 3 {
          batch.samples.push(s.clone());
        }
      }
    }
    if let Ok(s) = std::fs::read(dir.join(format!("{w}.bin"))) {
      for c in s.chunks_exact(17) {
        let i = u64::from_le_bytes(c[..8].try_into().unwrap());
        let h = u64::from_le_bytes(c[8..16].try_into().unwrap());
        batch.hashes.insert(i, h);
        if c[16] == 1 {
          distinct.insert(h);
        }
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  batch.distinct = distinct.len() as u64;
  batch.violation = violation;
  batch
}

#[allow(clippy::too_many_arguments)]
fn worker(
  p: &Prop,
  deep: bool,
  w: usize,
  workers: usize,
  runs: u64,
  deadline: Instant,
  shm: &Shm,
  dir: &std::path::Path,
  seed_of: &dyn Fn(u64) -> u64,
) {
  let mut done = 0u64;
  let mut events = 0u64;
  let mut counts: BTreeMap<String, u64> = BTreeMap::new();
  let mut bin = Vec::new();
  let mut samples = Vec::new();
  let mut viol = Value::Null;
  let mut i = w as u64;
  while i < runs {
    if i > shm.at(0).load(Ordering::SeqCst) || Instant::now() > deadline {
      break;
    }
    shm.at(1 + w * 2).store(i + 1, Ordering::SeqCst);
    shm.at(2 + w * 2).fetch_add(1, Ordering::SeqCst);
    let seed = seed_of(i);
    let (r, ctx) = run_index(p, seed, deep, false);
    done += 1;
    events += ctx.events;
    for (k, n) in &ctx.counts {
      *counts.entry(k.clone()).or_default() += n;
    }
    bin.extend_from_slice(&i.to_le_bytes());
    bin.extend_from_slice(&ctx.hash.to_le_bytes());
    bin.push(ctx.nontrivial as u8);
    if ctx.nontrivial && samples.is_empty() {
      let (_, ctx) = run_index(p, seed, deep, true);
      let mut plan = serde_json::to_string(&(p.gen_json)(seed, deep)).unwrap();
      if plan.len() > 1500 {
        let mut n = 1500;
        while !plan.is_char_boundary(n) {
          n -= 1;
        }
        plan.truncate(n);
        plan += "...";
      }
      let trace: Vec<String> = ctx.trace.unwrap_or_default().into_iter().take(20).collect();
      samples.push(json!({"run": i, "seed": seed, "plan": plan, "trace": trace}));
    }
    if let Err(v) = r {
      shm.at(0).fetch_min(i, Ordering::SeqCst);
      viol = json!({"run": i, "kind": v.kind, "msg": v.msg});
      break;
    }
    i += workers as u64;
  }
  std::fs::write(dir.join(format!("{w}.bin")), bin).expect("write");
  let v = json!({"done": done, "events": events, "counts": counts, "viol": viol, "samples": samples});
  std::fs::write(dir.join(format!("{w}.json")), v.to_string()).expect("write");
}

fn check_determinism(
  p: &Prop,
  deep: bool,
  idx: &[u64],
  hashes: &BTreeMap<u64, u64>,
  seed_of: &dyn Fn(u64) -> u64,
) -> Result<(), u64> {
  // three fresh processes, in reverse order and with other neighbours
  for part in 0..3usize {
    let mine: Vec<u64> = idx.iter().rev().copied().skip(part).step_by(3).collect();
    let out = in_child(Duration::from_secs(600), || {
      let mut out = Vec::new();
      for &i in &mine {
        let (_, ctx) = run_index(p, seed_of(i), deep, false);
        out.extend_from_slice(&i.to_le_bytes());
        out.extend_from_slice(&ctx.hash.to_le_bytes());
      }
      out
    });
    match out {
      Child::Done(out) => {
        if out.len() != mine.len() * 16 {
          return Err(mine.first().copied().unwrap_or(0));
        }
        for c in out.chunks_exact(16) {
          let i = u64::from_le_bytes(c[..8].try_into().unwrap());
          let h = u64::from_le_bytes(c[8..].try_into().unwrap());
          if hashes.get(&i).map_or(false, |x| *x != h) {
            return Err(i);
          }
        }
      }
      _ => return Err(mine.first().copied().unwrap_or(0)),
    }
  }
  Ok(())
}

/// Writes a replay file with the shortest history of runs of one worker that
/// shows the violation.
fn write_history(
  p: &Prop,
  args: &Args,
  deep: bool,
  i: u64,
  seed_of: &dyn Fn(u64) -> u64,
  viol: &Viol,
) -> Result<(String, Viol), String> {
  let all: Vec<u64> = (0..=i / args.workers as u64)
    .map(|k| seed_of(i % args.workers as u64 + k * args.workers as u64))
    .collect();
  let tier = if deep { "thorough" } else { "quick" };
  let mut n = 2;
  loop {
    n = all.len().min(n);
    let v = json!({"history": &all[all.len() - n..], "tier": tier});
    match replay_in_child(p, &v, Duration::from_secs(400)) {
      Some(Some(found)) => {
        let dir = format!("{}/replays", args.out);
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = format!("{dir}/{}-{}-{}.json", p.id, args.seed, i);
        let file = json!({
          "property": p.id,
          "verif_seed": args.seed,
          "tier": tier,
          "run": i,
          "kind": found.kind,
          "violation": found.msg,
          "history": v["history"],
        });
        std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).map_err(|e| e.to_string())?;
        return Ok((path, found));
      }
      _ if n == all.len() => return Err(format!("run {i} does not replay: {viol:?}")),
      _ => n *= 4,
    }
  }
}

#[allow(clippy::too_many_arguments)]
fn minimise_and_write(
  p: &Prop,
  args: &Args,
  deep: bool,
  i: u64,
  seed_of: &dyn Fn(u64) -> u64,
  viol: &Viol,
) -> Result<(String, Viol), String> {
  let seed = seed_of(i);
  let plan = (p.gen_json)(seed, deep);
  let entropy = seed_entropy(seed);
  let wrap = |plan: &Value| json!({"plan": plan, "entropy": entropy});
  let limit = if viol.kind == "hang" {
    Duration::from_secs(20)
  } else {
    Duration::from_secs(60)
  };
  let first = replay_in_child(p, &wrap(&plan), if viol.kind == "hang" { HANG_LIMIT } else { limit });
  match &first {
    Some(Some(v)) if v.kind == viol.kind => {}
    other => {
      println!("run {i} alone does not replay ({other:?}), the process keeps state between runs");
      return write_history(p, args, deep, i, seed_of, viol);
    }
  }
  let original = plan.clone();
  let mut plan = plan;
  if let Some(c) = p.concrete.as_ref().and_then(|f| f(&wrap(&plan))) {
    let r = replay_in_child(p, &wrap(&c), limit);
    if matches!(&r, Some(Some(v)) if v.kind == viol.kind) {
      plan = c;
    } else {
      println!("the list of decisions does not replay ({r:?}), the seed is kept");
    }
  }
  let start = Instant::now();
  let mut tries = 0;
  let small = shrink::minimise(&plan, |cand| {
    tries += 1;
    if tries > 3000 || start.elapsed() > Duration::from_secs(60) {
      return None;
    }
    let r = replay_in_child(p, &wrap(cand), limit);
    Some(matches!(r, Some(Some(v)) if v.kind == viol.kind))
  });
  let last = replay_in_child(p, &wrap(&small), if viol.kind == "hang" { HANG_LIMIT } else { limit });
  let (small, v) = match last {
    Some(Some(v)) if v.kind == viol.kind => (small, v),
    _ => (plan.clone(), viol.clone()),
  };
  // collect the event trace of the minimised run
  let trace = in_child(limit, || {
    let r = run_value(p, &wrap(&small), true);
    let t = r.map(|(_, c)| c.trace.unwrap_or_default()).unwrap_or_default();
    serde_json::to_vec(&t).unwrap()
  });
  let trace: Value = match trace {
    Child::Done(b) => serde_json::from_slice(&b).unwrap_or(Value::Null),
    _ => Value::Null,
  };
  let dir = format!("{}/replays", args.out);
  std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
  let path = format!("{dir}/{}-{}-{}.json", p.id, args.seed, i);
  let file = json!({
    "property": p.id,
    "verif_seed": args.seed,
    "tier": args.tier,
    "run": i,
    "run_seed": seed,
    "kind": v.kind,
    "violation": v.msg,
    "entropy": entropy,
    "plan": small,
    "trace": trace,
    "original_plan": original,
  });
  std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).map_err(|e| e.to_string())?;
  Ok((path, v))
}

fn replay(path: &str, props: &[Prop]) -> i32 {
  let mut s = String::new();
  std::fs::File::open(path)
    .and_then(|mut f| f.read_to_string(&mut s))
    .expect("replay file");
  let v: Value = serde_json::from_str(&s).expect("replay file");
  let p = find(props, v["property"].as_str().unwrap_or(""));
  match replay_in_child(p, &v, HANG_LIMIT) {
    None => {
      println!("HARNESS-ERROR: the replay file does not fit the harness");
      3
    }
    Some(None) => {
      println!("{}: the replay holds", p.id);
      0
    }
    Some(Some(viol)) => {
      println!("[{}] {}", viol.kind, viol.msg);
      if v["kind"] != viol.kind.as_str() || v["violation"] != viol.msg.as_str() {
        println!("note: differs from the recorded violation: {}", v["violation"]);
      }
      println!("VIOLATION property={} replay={}", p.id, path);
      1
    }
  }
}

fn write_evidence(p: &Prop, args: &Args, b: &Batch, wall: f64, violations: u64) {
  let pick = |prefix: &str| -> BTreeMap<String, u64> {
    b.counts
      .iter()
      .filter_map(|(k, n)| k.strip_prefix(prefix).map(|k| (k.to_string(), *n)))
      .collect()
  };
  let rate = |n: u64| (n as f64 / b.search_s.max(1e-3) * 3600.0) as u64;
  let v = json!({
    "property": p.id,
    "tier": args.tier,
    "seed": args.seed,
    "level": "exploration",
    "coverage": {
      "evaluations": b.done,
      "distinct_nontrivial": b.distinct,
      "rule": p.rule,
      "samples": b.samples,
      "simulated_runs": b.done,
      "runs_and_seeds_per_hour": rate(b.done),
      "simulated_events": b.events,
      "simulated_time": p.time,
      "faults_injected": pick("fault."),
      "simulator_steps": pick("sim."),
      "known_findings_seen": pick("known."),
      "probes_hit": pick("probe."),
      "distinct_measure": "distinct hashes of the event log (operations, results, outcomes of simulated calls) of non-trivial runs",
      "real_components": p.real,
      "stubbed_components": p.stub,
      "determinism_selfcheck": "a sample of the runs was executed again in three other processes in another order, all event logs were identical",
    },
    "assumptions": p.assumptions,
    "wall_s": wall,
    "violations": violations,
  });
  let dir = format!("{}/evidence", args.out);
  let _ = std::fs::create_dir_all(&dir);
  std::fs::write(
    format!("{dir}/{}.json", p.id),
    serde_json::to_vec_pretty(&v).unwrap(),
  )
  .expect("evidence file");
}
