//! E04: the example programs as processes.

use crate::lexer::{Fail, Lang, Tokens};
use crate::sim::{set_args, Exit};
use crate::{calc, clike, json, programs, sexp, text};
use serde::{Deserialize, Serialize};
use simcore::excerpt::excerpt;
use simcore::model::*;
use simcore::os::{self, Node, WStep};
use simcore::{ensure, feed, Ctx, Feed, Prop, Rng, Step, Viol};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::process::ExitCode;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Which {
  Calc,
  Clike,
  Json,
  Sexp,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  which: Which,
  /// The source is a file.
  file: bool,
  /// The file cannot be opened.
  missing: Option<u8>,
  text: String,
  corrupt: Vec<Corrupt>,
  steps: Vec<Step>,
  tail: usize,
  /// The standard input, if the source is a file.
  input: String,
  isteps: Vec<Step>,
  itail: usize,
  wsteps: Vec<WStep>,
}

const FILE: &str = "/simfs/dir/main.src";

/// What the process did.
#[derive(Debug)]
struct Did {
  out: String,
  err: String,
  code: i32,
}

/// What it should have done.
#[derive(Clone, Debug, PartialEq)]
struct Want {
  out: String,
  code: i32,
  fail: Option<Fail>,
}

fn lang(w: Which) -> &'static Lang {
  match w {
    Which::Calc => &calc::LANG,
    Which::Clike => &clike::LANG,
    Which::Json => &json::LANG,
    Which::Sexp => &sexp::LANG,
  }
}

/// Known defects of the programs, and the entries of the list of known
/// findings they stand for.
#[derive(Clone, Copy, Default)]
struct Defects {
  right: bool,
  leak: bool,
  escapes: bool,
}

const CALC_RIGHT: &str = "examples/calc/main.rs AddExp::calc and MulExp::calc:";
const CLIKE_RIGHT: &str = "examples/clike/main.rs eval_exp!:";
const CLIKE_LEAK: &str = "examples/clike/main.rs Block::eval:";
const JSON_ESCAPE: &str = "examples/json/main.rs json_str:";
const LIST: &str = include_str!("../../KNOWN_FINDINGS.txt");

/// The entry of the list.
fn listed(key: &str) -> Option<&'static str> {
  LIST.lines().find_map(|l| l.strip_prefix("known: property=E04 ").filter(|l| l.starts_with(key)))
}

/// The defects each of which, or all of which, may explain what a program did.
fn candidates(w: Which) -> Vec<(Defects, Vec<&'static str>)> {
  let d = Defects::default();
  let v = match w {
    Which::Calc => vec![(Defects { right: true, ..d }, vec![CALC_RIGHT])],
    Which::Clike => vec![
      (Defects { right: true, ..d }, vec![CLIKE_RIGHT]),
      (Defects { leak: true, ..d }, vec![CLIKE_LEAK]),
      (
        Defects {
          right: true,
          leak: true,
          ..d
        },
        vec![CLIKE_RIGHT, CLIKE_LEAK],
      ),
    ],
    Which::Json => vec![(Defects { escapes: true, ..d }, vec![JSON_ESCAPE])],
    Which::Sexp => vec![],
  };
  v.into_iter().filter_map(|(d, keys)| Some((d, keys.into_iter().map(listed).collect::<Option<Vec<_>>>()?))).collect()
}

/// Lines of the standard input, as far as the process has read it.
struct Lines {
  /// Bytes, ends ([`None`]) and failures.
  events: VecDeque<Result<Option<u8>, ()>>,
  read: usize,
}

impl Lines {
  fn all(input: &str) -> Self {
    Self {
      events: input.bytes().map(|b| Ok(Some(b))).collect(),
      read: 0,
    }
  }

  fn next(&mut self) -> clike::Line {
    self.read += 1;
    let mut line = Vec::new();
    while let Some(b) = self.events.pop_front().transpose()?.flatten() {
      line.push(b);
      if b == b'\n' {
        break;
      }
    }
    String::from_utf8(line).map_err(|_| ())
  }
}

/// Runs the reference.
fn refer(w: Which, m: &mut CharModel, eager: bool, d: Defects, lines: &mut Lines) -> Want {
  let mut ts = Tokens::new(lang(w), m, eager, d.escapes);
  let mut out = String::new();
  let r = match w {
    Which::Calc => calc::run(&mut ts, d.right, &mut out).map(|_| 0),
    Which::Sexp => sexp::run(&mut ts, &mut out).map(|_| 0),
    Which::Json => json::run(&mut ts, &mut out).map(|_| 0),
    Which::Clike => {
      let defects = clike::Defects {
        right: d.right,
        leak: d.leak,
      };
      clike::run(&mut ts, defects, &mut || lines.next(), &mut out)
    }
  };
  match r {
    Ok(code) => {
      // a program without a result exits when it is done
      Want { out, code, fail: None }
    }
    Err(f) => Want {
      out,
      code: 1,
      fail: Some(f),
    },
  }
}

/// Whether the process did what the reference says.
fn same(did: &Did, want: &Want, plan: &Plan, doc: Option<&str>) -> Result<(), String> {
  let name = if plan.file { FILE } else { "<stdin>" };
  let raw = plan.which == Which::Calc || plan.which == Which::Sexp;
  let out = match plan.which {
    Which::Sexp => sexp::flat(&did.out),
    Which::Json if want.fail.is_none() => json::flat(&did.out),
    _ => did.out.clone(),
  };
  if out != want.out {
    return Err(format!("expected the output {:?}", want.out));
  }
  if did.code != want.code {
    return Err(format!("expected the exit code {}", want.code));
  }
  let Some(fail) = &want.fail else {
    return match did.err.is_empty() {
      true => Ok(()),
      false => Err("expected no error".into()),
    };
  };
  // the end of the report
  let rest = match raw {
    true => {
      let n = did.err.rfind("Error: ").ok_or("expected the result of main")?;
      &did.err[..n]
    }
    false => did.err.strip_suffix("1 error emitted\n").ok_or("expected a summary of 1 error")?,
  };
  let text = match fail {
    Fail::Fatal(cause) => {
      let cause = cause.map(|c| feed::error_of(c).to_string());
      if rest.matches("error: ").count() != 1 || !rest.starts_with("error: ") || cause.as_ref().is_some_and(|c| !rest.contains(c)) {
        return Err(format!("expected one fatal error ({cause:?})"));
      }
      return Ok(());
    }
    Fail::At(msg, at) => {
      let ex = doc.map_or(String::new(), |d| excerpt(d, at.0, at.1));
      format!("error: {msg}\n  at {name}:{}:{}\n{ex}\n", at.0 .0, at.0 .1)
    }
    Fail::Plain(msg) => format!("error: {msg}\n"),
    Fail::Open | Fail::Undefined => return Ok(()),
  };
  if rest != text {
    return Err(format!("expected the report\n{text}"));
  }
  Ok(())
}

/// Forgets what the standard library has read from the standard input.
fn drain_stdin() {
  os::with(|o| o.stdin = Some(Rc::new(RefCell::new(Feed::new(Vec::new(), Vec::new(), 0)))));
  let mut lock = std::io::stdin().lock();
  let n = std::io::BufRead::fill_buf(&mut lock).map_or(0, |b| b.len());
  std::io::BufRead::consume(&mut lock, n);
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let source = Source {
    doc: plan.text.clone(),
    corrupt: plan.corrupt.clone(),
    steps: plan.steps.clone(),
    tail: plan.tail,
  };
  let data = source.bytes();
  let valid = std::str::from_utf8(&data).ok();
  if plan.file && valid.is_none() {
    return Ok(());
  }
  // programs without a defined result are not run at all
  let none = Defects::default();
  let all = candidates(plan.which);
  for d in std::iter::once(&none).chain(all.iter().map(|(d, _)| d)) {
    let mut m = CharModel::in_memory(true, &data);
    let mut lines = Lines::all(&plan.input);
    let want = refer(plan.which, &mut m, false, *d, &mut lines);
    if want.fail == Some(Fail::Undefined) {
      ctx.count("probe.undefined_programs", 1);
      return Ok(());
    }
    if !plan.file && lines.read > 0 {
      return Ok(());
    }
  }
  let mut sfeed = Feed::new(data.clone(), plan.steps.clone(), plan.tail);
  sfeed.syscalls = true;
  let sfeed = Rc::new(RefCell::new(sfeed));
  let mut ifeed = Feed::new(plan.input.clone().into_bytes(), plan.isteps.clone(), plan.itail);
  ifeed.syscalls = true;
  let ifeed = Rc::new(RefCell::new(ifeed));
  drain_stdin();
  os::with(|o| {
    o.wsteps = plan.wsteps.clone();
    o.stdout = Some(Vec::new());
    o.stdin = Some(if plan.file { ifeed.clone() } else { sfeed.clone() });
    if plan.file {
      let node = match plan.missing {
        Some(e) => Node::OpenError(e),
        None => Node::Data(Some(sfeed.clone()), data.clone()),
      };
      o.files.push((FILE.into(), node));
    }
  });
  let mut args = vec!["program".to_string()];
  args.extend(plan.file.then(|| FILE.to_string()));
  set_args(args);
  let r = catch_unwind(AssertUnwindSafe(|| match plan.which {
    Which::Calc => programs::calc::sim_main(),
    Which::Clike => programs::clike::sim_main(),
    Which::Json => programs::json::sim_main(),
    Which::Sexp => programs::sexp::sim_main(),
  }));
  let (out, err) = os::with(|o| (o.stdout.take().unwrap(), std::mem::take(&mut o.stderr)));
  let used = os::with(|o| (o.short_writes, o.eintr_writes, o.opens));
  drain_stdin();
  let code = match r {
    Ok(c) if c == ExitCode::SUCCESS => 0,
    Ok(c) if c == ExitCode::FAILURE => 1,
    Ok(_) => -1,
    Err(p) => match p.downcast::<Exit>() {
      Ok(e) => e.0,
      Err(p) => {
        let msg = p.downcast_ref::<String>().cloned().unwrap_or_default();
        if plan.missing.is_some() && msg.starts_with("invalid path") {
          ctx.log(|| msg);
          ctx.count("probe.missing_files", 1);
          return Ok(());
        }
        resume_unwind(p)
      }
    },
  };
  ensure!(plan.missing.is_none(), "open", "a file that cannot be opened was read");
  let did = Did {
    out: String::from_utf8_lossy(&out).into_owned(),
    err: String::from_utf8_lossy(&err).into_owned(),
    code,
  };
  ctx.log(|| format!("{did:?}"));
  ctx.count_feed(&sfeed.borrow());
  if plan.file {
    ctx.count_feed(&ifeed.borrow());
  }
  ctx.count("fault.short_write", used.0);
  ctx.count("fault.EINTR_write", used.1);
  let mut events = VecDeque::new();
  let mut bytes = plan.input.bytes();
  for o in &ifeed.borrow().log {
    match o {
      feed::Out::Data(n) => events.extend(bytes.by_ref().take(*n).map(|b| Ok(Some(b)))),
      feed::Out::Fail(_) => events.push_back(Err(())),
      feed::Out::Eof => events.push_back(Ok(None)),
      _ => {}
    }
  }
  let mut wrong = None;
  let tries = std::iter::once((none, Vec::new())).chain(all);
  for (d, keys) in tries {
    for eager in [true, false] {
      let mut m = CharModel::new(true);
      m.refresh(&sfeed.borrow());
      let mut lines = Lines {
        events: events.clone(),
        read: 0,
      };
      let want = refer(plan.which, &mut m, eager, d, &mut lines);
      if matches!(want.fail, Some(Fail::Open | Fail::Undefined)) {
        ctx.count("probe.open", 1);
        return Ok(());
      }
      let doc = if plan.file { valid } else { None };
      match same(&did, &want, plan, doc) {
        Ok(()) => {
          for k in keys {
            ctx.count(&format!("known.{k}"), 1);
          }
          ctx.count(
            match (plan.which, &want.fail) {
              (Which::Calc, None) => "probe.calc",
              (Which::Clike, None) => "probe.clike",
              (Which::Json, None) => "probe.json",
              (Which::Sexp, None) => "probe.sexp",
              (_, Some(Fail::Fatal(_))) => "probe.fatal_errors",
              (Which::Clike, Some(_)) => "probe.clike_errors",
              (_, Some(_)) => "probe.errors",
            },
            1,
          );
          ctx.count("probe.lines_read", lines.read as u64);
          ctx.nontrivial = !plan.text.trim().is_empty();
          return Ok(());
        }
        Err(e) => {
          wrong.get_or_insert(e);
        }
      }
    }
  }
  let kind = format!("{:?}", plan.which).to_lowercase();
  Viol::new(&kind, format!("{}, got {did:?}", wrong.unwrap()))
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let which = [Which::Clike, Which::Clike, Which::Clike, Which::Json, Which::Calc, Which::Sexp][r.below(6)];
  let file = matches!(which, Which::Clike | Which::Json) && r.chance(2, 3);
  let text = match which {
    Which::Calc => text::calc(r),
    Which::Clike => {
      let input = file && r.chance(1, 2);
      text::clike(r, input, deep)
    }
    Which::Json => text::json(r),
    Which::Sexp => text::sexp(r),
  };
  let (mut steps, mut tail) = gen_steps(
    r,
    text.len(),
    Faults {
      eintr: true,
      ..Default::default()
    },
  );
  if r.chance(1, 6) {
    // a failing read, mostly between two tokens
    let gaps: Vec<usize> = std::iter::once(0)
      .chain(text.char_indices().filter(|(_, c)| c.is_whitespace()).map(|(i, c)| i + c.len_utf8()))
      .collect();
    let at = if r.chance(1, 10) { r.below(text.len() + 1) } else { *r.pick(&gaps) };
    steps.clear();
    let mut from = 0;
    while from < at {
      let n = match r.below(3) {
        0 => 1,
        1 => r.range(1, at - from),
        _ => at - from,
      };
      let n = n.min(1000);
      steps.push(Step::Give(n));
      from += n;
    }
    steps.push(Step::Fail(r.below(simcore::feed::KINDS as usize) as u8));
    tail = *r.pick(&[0, 1, 3]);
  }
  let corrupt = if !file && r.chance(1, 15) { gen_corrupt(r, text.len()) } else { Vec::new() };
  let mut input = String::new();
  if which == Which::Clike && file {
    for _ in 0..r.below(8) {
      let line = match r.below(8) {
        0 => r.pick(&["+7", " 12 ", "-3\r", "2147483648", "x", "", "١", "0x10", "\t5"]).to_string(),
        _ => r.below(20).to_string(),
      };
      input.push_str(&line);
      input.push('\n');
    }
    if r.chance(1, 4) {
      input.pop();
    }
  }
  let (isteps, itail) = match r.below(3) {
    0 => (Vec::new(), 0),
    _ => {
      let (mut s, t) = gen_steps(
        r,
        input.len(),
        Faults {
          eintr: true,
          ..Default::default()
        },
      );
      if r.chance(1, 4) {
        let at = r.below(s.len() + 1);
        s.insert(at, Step::Fail(r.below(simcore::feed::KINDS as usize) as u8));
      }
      (s, t)
    }
  };
  Plan {
    which,
    file,
    missing: (file && r.chance(1, 60)).then(|| r.below(simcore::feed::KINDS as usize) as u8),
    text,
    corrupt,
    steps,
    tail,
    input,
    isteps,
    itail,
    wsteps: if r.chance(1, 4) { gen_wsteps(r) } else { Vec::new() },
  }
}

const REAL: &[&str] = &[
  "the example programs calc, clike, json and sexp, from their sources",
  "laps with its logger, laps_macros and laps_regex",
  "std::fs::File, std::io::Stdin, std::io::Stdout and std::io::Stderr (including their buffers)",
];
const STUB: &[&str] = &[
  "files, the standard input, output and error below the system calls",
  "the arguments and the exit of the process",
  "getrandom (also in the process of the macro)",
];

pub fn props() -> Vec<Prop> {
  vec![Prop::new("E04", 150_000, 12_000_000, gen, run)
    .rule("one run = one process of an example program with a random source, right or with mistakes, from a file or the standard input in short, interrupted and failing reads, with lines of the standard input for programs that read some, to outputs with short and interrupted writes; non-trivial = what it printed and its exit code were compared with the reference")
    .real(REAL)
    .stub(STUB)
    .assumptions(&[
      "programs with overflows, divisions by zero, endless loops or recursions, or `break` and `continue` outside of loops have no defined result and are not run",
      "after a read has failed inside of a token, or malformed UTF-8, the run is not compared",
      "constructs with #[starts_with] may look at all of the tokens, or stop at the first that does not fit",
      "the layout of the printed trees is not compared, only their contents",
    ])]
}
