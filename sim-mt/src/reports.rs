//! D01: several threads report through spans of the same inputs.

use crate::sched::{clock, concrete, simulate, Machine, Sched};
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Span};
use laps::{
  log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning,
};
use serde::{Deserialize, Serialize};
use simcore::os::{Node, Os, WStep};
use simcore::{ensure, Ctx, Feed, Prop, Rng, Viol};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read};
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Level {
  Error,
  Fatal,
  Warning,
  RawError,
  RawFatal,
  RawWarning,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
  /// Reports something at a location.
  Log(Level, u32, u32),
  /// Reads a character or a byte, in the thread that owns the reader.
  Read,
  /// Looks at both counters.
  Poll,
  /// Prints the summary.
  Summary,
  /// Continues with a clone of the span, or with another span.
  Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Input {
  /// 0: file, 1: standard input, 2: buffer.
  ftype: u8,
  /// The thread that owns a reader of the input; true: of bytes.
  reader: Option<(usize, bool)>,
  /// Outcomes of its reads: so many bytes, or a failure if 0.
  reads: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  entropy: u64,
  inputs: Vec<Input>,
  /// Per thread: acts on inputs.
  threads: Vec<Vec<(usize, Act)>>,
  /// Threads start others: each one is started by the thread before.
  nested: bool,
  wsteps: Vec<WStep>,
  sched: Sched,
}

const FILE: &str = "/simfs/dir/source.txt";
const DOC: &str = "first line\n\tsecond\nthird 你好\n\nfifth\nsixth\nseventh\neighth\nninth\n";

/// A source that sometimes fails.
struct Source {
  reads: Vec<u8>,
  next: usize,
}

impl Read for Source {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = self.reads.get(self.next).copied();
    self.next += 1;
    match n {
      None => Ok(0),
      Some(0) => Err(Error::new(ErrorKind::Other, "broken source")),
      Some(n) => {
        let n = (n as usize).min(buf.len());
        buf[..n].fill(b'r');
        Ok(n)
      }
    }
  }
}

enum AnyReader {
  Chars(Reader<Source>),
  Bytes(ByteReader<Source>),
}

impl AnyReader {
  fn span(&self) -> &Span {
    match self {
      Self::Chars(r) => r.span(),
      Self::Bytes(r) => r.span(),
    }
  }
  fn read(&mut self) -> bool {
    match self {
      Self::Chars(r) => r.next_char().is_ok(),
      Self::Bytes(r) => r.next_char().is_ok(),
    }
  }
}

/// What happened, with the times of the beginning and the end.
struct Event {
  thread: usize,
  input: usize,
  from: u64,
  to: u64,
  what: What,
}

enum What {
  /// Errors and warnings that were reported.
  Report(usize, usize, bool),
  Poll(usize, usize),
  Other,
}

fn perform(s: &Span, level: Level, msg: &str) -> bool {
  match level {
    Level::Error => !log_error!(s, "{msg}").is_fatal(),
    Level::Fatal => log_fatal_error!(s, "{msg}").is_fatal(),
    Level::Warning => {
      log_warning!(s, "{msg}");
      true
    }
    Level::RawError => !log_raw_error!(s, "{msg}").is_fatal(),
    Level::RawFatal => log_raw_fatal_error!(s, "{msg}").is_fatal(),
    Level::RawWarning => {
      log_raw_warning!(s, "{msg}");
      true
    }
  }
}

/// A thread of the workload.
struct Worker {
  index: usize,
  acts: Vec<(usize, Act)>,
  spans: Vec<Span>,
  readers: Vec<Option<AnyReader>>,
}

impl Worker {
  fn run(mut self) -> Vec<Event> {
    let mut events = Vec::new();
    let acts = std::mem::take(&mut self.acts);
    for (k, (input, act)) in acts.into_iter().enumerate() {
      let from = clock();
      let span = &mut self.spans[input];
      let what = match act {
        Act::Log(level, line, col) => {
          let mut s = span.clone();
          s.update_loc(Location { line, col });
          let ok = perform(&s, level, &format!("message {} of {}.", k, self.index));
          match level {
            Level::Warning | Level::RawWarning => What::Report(0, 1, ok),
            _ => What::Report(1, 0, ok),
          }
        }
        Act::Read => match &mut self.readers[input] {
          Some(r) => {
            let ok = r.read();
            What::Report(!ok as usize, 0, true)
          }
          None => What::Other,
        },
        Act::Poll => {
          let (e, w) = (span.error_num(), span.warning_num());
          What::Poll(e, w)
        }
        Act::Summary => {
          span.log_summary();
          What::Other
        }
        Act::Clone => {
          *span = span.clone().into_updated(&'x');
          What::Other
        }
      };
      events.push(Event {
        thread: self.index,
        input,
        from,
        to: clock(),
        what,
      });
    }
    events
  }
}

/// Runs the workers, each one is started by the worker before if `nested`.
fn run_all(mut workers: Vec<Worker>, nested: bool) -> Vec<Vec<Event>> {
  if workers.is_empty() {
    return Vec::new();
  }
  if nested {
    let first = workers.remove(0);
    let rest = std::thread::spawn(move || run_all(workers, true));
    let mut all = vec![first.run()];
    all.extend(rest.join().unwrap_or_else(|e| std::panic::resume_unwind(e)));
    return all;
  }
  let threads: Vec<_> = workers.into_iter().map(|w| std::thread::spawn(move || w.run())).collect();
  threads
    .into_iter()
    .map(|t| t.join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
    .collect()
}

fn file_type(i: &Input) -> FileType {
  match i.ftype {
    0 => FileType::File(Path::new(FILE).into()),
    1 => FileType::Stdin,
    _ => FileType::Buffer,
  }
}

/// Result of the simulated part.
struct Done {
  events: Vec<Event>,
  finals: Vec<(usize, usize)>,
  text: String,
  summary: Vec<String>,
  counts: [u64; 4],
}

fn work(plan: &Plan) -> Done {
  let n = plan.threads.len();
  let mut readers: Vec<Vec<Option<AnyReader>>> = (0..n).map(|_| Vec::new()).collect();
  let mut roots = Vec::new();
  for i in &plan.inputs {
    let mut span = None;
    for (t, slot) in readers.iter_mut().enumerate() {
      let r = match i.reader {
        Some((owner, bytes)) if owner == t => {
          let source = Source {
            reads: i.reads.clone(),
            next: 0,
          };
          let r = if bytes {
            AnyReader::Bytes(ByteReader::new(source, file_type(i)))
          } else {
            AnyReader::Chars(Reader::new(source, file_type(i)))
          };
          span = Some(r.span().clone());
          Some(r)
        }
        _ => None,
      };
      slot.push(r);
    }
    roots.push(span.unwrap_or_else(|| Span::new(file_type(i))));
  }
  let workers: Vec<Worker> = plan
    .threads
    .iter()
    .zip(readers)
    .enumerate()
    .map(|(index, (acts, readers))| Worker {
      index,
      acts: acts.clone(),
      spans: roots.clone(),
      readers,
    })
    .collect();
  let events: Vec<Event> = run_all(workers, plan.nested).into_iter().flatten().collect();
  let finals = roots.iter().map(|s| (s.error_num(), s.warning_num())).collect();
  let text = String::from_utf8_lossy(&simcore::os::take_shared_stderr()).into_owned();
  let summary = roots
    .iter()
    .map(|s| {
      s.log_summary();
      String::from_utf8_lossy(&simcore::os::take_shared_stderr()).into_owned()
    })
    .collect();
  Done {
    events,
    finals,
    text,
    summary,
    counts: simcore::os::shared_counts(),
  }
}

fn plural(n: usize, what: &str) -> String {
  match n {
    0 => String::new(),
    1 => format!("1 {what}"),
    n => format!("{n} {what}s"),
  }
}

fn judge(plan: &Plan, d: Done, ctx: &mut Ctx) -> Result<(), Viol> {
  for (name, n) in ["sim.opens", "fault.open_failed", "fault.short_write", "fault.EINTR_write"].iter().zip(d.counts) {
    ctx.count(name, n);
  }
  // the history of each input
  for i in 0..plan.inputs.len() {
    let mine: Vec<&Event> = d.events.iter().filter(|e| e.input == i).collect();
    let mut total = (0, 0);
    for e in &mine {
      if let What::Report(x, y, ok) = e.what {
        ensure!(ok, "kind", "thread {} got a wrong kind of error", e.thread);
        total.0 += x;
        total.1 += y;
      }
    }
    ctx.count("probe.reports", (total.0 + total.1) as u64);
    ctx.nontrivial |= total.0 + total.1 > 1 && plan.threads.len() > 1;
    ensure!(
      d.finals[i] == total,
      "lost",
      "input {i}: {:?} errors and warnings counted, {total:?} were reported",
      d.finals[i]
    );
    let sum = |f: &dyn Fn(&Event) -> bool| {
      mine.iter().filter(|e| f(e)).fold((0, 0), |s, e| match e.what {
        What::Report(x, y, _) => (s.0 + x, s.1 + y),
        _ => s,
      })
    };
    let polls: Vec<(&&Event, (usize, usize))> = mine
      .iter()
      .filter_map(|e| match e.what {
        What::Poll(x, y) => Some((e, (x, y))),
        _ => None,
      })
      .collect();
    for (p, (x, y)) in &polls {
      // reported before, and at most begun
      let low = sum(&|e| e.to < p.from);
      let high = sum(&|e| e.from < p.to);
      ensure!(
        low.0 <= *x && *x <= high.0 && low.1 <= *y && *y <= high.1,
        "poll",
        "input {i}: thread {} saw {x} errors and {y} warnings, between {low:?} and {high:?} are possible",
        p.thread
      );
      ctx.count("probe.polls", 1);
      ctx.count("probe.overlapped_polls", (low != high) as u64);
      for (q, (u, v)) in &polls {
        if p.to < q.from {
          let between = sum(&|e| e.from > p.to && e.to < q.from);
          ensure!(
            x + between.0 <= *u && y + between.1 <= *v,
            "decrease",
            "input {i}: thread {} saw {x}, {y}, later thread {} saw {u}, {v} after {between:?} reports",
            p.thread,
            q.thread
          );
        }
      }
    }
    let and = if total.0 == 0 || total.1 == 0 { "" } else { " and " };
    let want = format!("{}{and}{} emitted\n", plural(total.0, "error"), plural(total.1, "warning"));
    ensure!(d.summary[i] == want, "summary", "input {i}: summary {:?}, expected {want:?}", d.summary[i]);
  }
  // messages
  let mut places: Vec<(String, usize)> = Vec::new();
  let mut summaries = 0;
  let mut failed = 0;
  for e in &d.events {
    if let What::Report(1, 0, _) = e.what {
      failed += 1;
    }
  }
  for (t, acts) in plan.threads.iter().enumerate() {
    for (k, (i, a)) in acts.iter().enumerate() {
      match a {
        Act::Log(l, line, col) => {
          let (tag, raw) = match l {
            Level::Error | Level::Fatal => ("error", false),
            Level::RawError | Level::RawFatal => ("error", true),
            Level::Warning => ("warning", false),
            Level::RawWarning => ("warning", true),
          };
          failed -= (tag == "error") as usize;
          let msg = format!("{tag}: message {k} of {t}.\n");
          let n = d.text.matches(&msg).count();
          ensure!(n == 1, "message", "{msg:?} was printed {n} times in {:?}", d.text);
          if !raw {
            let at = format!("  at {}:{line}:{col}\n", file_type(&plan.inputs[*i]));
            match places.iter_mut().find(|p| p.0 == at) {
              Some(p) => p.1 += 1,
              None => places.push((at, 1)),
            }
          }
        }
        Act::Summary => summaries += 1,
        _ => {}
      }
    }
  }
  for (at, n) in &places {
    let m = d.text.matches(at.as_str()).count();
    ensure!(m == *n, "message", "{at:?} was printed {m} times instead of {n} in {:?}", d.text);
  }
  let m = d.text.matches("error: broken source\n").count();
  ensure!(m == failed, "message", "{failed} failed reads, {m} reports in {:?}", d.text);
  ctx.count("probe.failed_reads", failed as u64);
  let m = d.text.matches(" emitted\n").count();
  ensure!(m == summaries, "message", "{summaries} summaries, {m} were printed in {:?}", d.text);
  ctx.log(|| d.text.clone());
  Ok(())
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let ok = plan.threads.len() <= 12
    && !plan.inputs.is_empty()
    && plan.threads.iter().flatten().all(|a| a.0 < plan.inputs.len());
  if !ok {
    return Ok(());
  }
  let m = Machine {
    sched: &plan.sched,
    entropy: plan.entropy,
    cpus: 4,
    max_steps: 3_000_000,
  };
  let make_os = || {
    let feed = Rc::new(RefCell::new(Feed::new(DOC.as_bytes().to_vec(), Vec::new(), 7)));
    Os {
      wsteps: plan.wsteps.clone(),
      files: vec![(FILE.into(), Node::Data(Some(feed), DOC.as_bytes().to_vec()))],
      ..Default::default()
    }
  };
  simulate(&m, make_os, ctx, || work(plan), |d, ctx| judge(plan, d, ctx))
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let n = r.range(2, if deep { 8 } else { 5 });
  let k = r.range(1, 3);
  let inputs: Vec<Input> = (0..k)
    .map(|_| Input {
      ftype: r.below(3) as u8,
      reader: r.chance(1, 3).then(|| (r.below(n), r.chance(1, 2))),
      reads: (0..r.range(1, 8)).map(|_| if r.chance(1, 2) { 0 } else { r.range(1, 3) as u8 }).collect(),
    })
    .collect();
  use Level::*;
  let raw = r.chance(1, 3);
  let max = if deep { 20 } else { 9 };
  let threads: Vec<Vec<(usize, Act)>> = (0..n)
    .map(|t| {
      let observer = r.chance(1, 4);
      (0..r.range(1, max))
        .map(|_| {
          let i = r.below(k);
          let owns = inputs[i].reader.is_some_and(|x| x.0 == t);
          let act = match r.below(10) {
            0..=1 => Act::Poll,
            2 => Act::Clone,
            3 if r.chance(1, 3) => Act::Summary,
            3..=6 if owns => Act::Read,
            _ if observer => Act::Poll,
            _ => {
              let l = *r.pick(&[Error, Warning, Fatal, RawError, RawWarning, RawFatal]);
              let l = match l {
                Error | Warning | Fatal if raw => RawError,
                l => l,
              };
              Act::Log(l, r.below(12) as u32, r.below(9) as u32)
            }
          };
          (i, act)
        })
        .collect()
    })
    .collect();
  let length = *r.pick(&[100, 400, 2000]);
  Plan {
    entropy: r.next(),
    inputs,
    threads,
    nested: r.chance(1, 4),
    wsteps: (0..if r.chance(1, 2) { 0 } else { r.size(40) })
      .map(|_| match r.below(3) {
        0 => WStep::Eintr,
        1 => WStep::Short(1),
        _ => WStep::Short(r.range(1, 9)),
      })
      .collect(),
    sched: Sched::gen(r, length, 1),
  }
}

pub const TIME: &str = "laps reads no clock: simulated time is counted in points at which the scheduler decides (simulator_steps)";

pub fn props() -> Vec<Prop> {
  vec![Prop::new("D01", 36_000, 1_000_000, gen, run)
    .rule("one run = up to 5 (8) threads, which report through spans of up to 3 inputs, read from failing readers that share their counters, look at the counters and print summaries, one schedule (random walk or random priorities over all atomic operations, accesses to memory, system calls, waits and thread starts) and a trace of short and interrupted writes; the history of reports and observations of each input is checked against an atomic counter; non-trivial = at least two reports on one input and one switch")
    .time(TIME)
    .concrete(|v| {
      concrete(v, |v| {
        if let Ok(p) = serde_json::from_value::<Plan>(v["plan"].clone()) {
          let _ = run(&p, &mut Ctx::new(false));
        }
      })
    })
    .real(&[
      "laps::span, laps::reader (instrumented: every access to shared memory is a point of the scheduler)",
      "std::thread, std::sync and the lock of the standard error, on real threads of which only one runs at a time",
    ])
    .stub(&["the scheduler of the kernel (futex, sched_yield, thread start, join and end)", "the standard error and files", "getrandom"])
    .assumptions(&["executions are sequentially consistent; reorderings of relaxed atomics by the hardware are not simulated"])]
}
