//! Reports without the logger.

use laps::span::{Error, FileType, Location, Span};
use laps::{
  log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning,
};
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::os::{self, Node};
use simcore::{ensure, Ctx, Feed, Prop, Rng, Viol};
use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Level {
  Error,
  Fatal,
  Warning,
  RawError,
  RawFatal,
  RawWarning,
  Summary,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
  level: Level,
  start: (u32, u32),
  end: (u32, u32),
  msg: String,
  /// Logs through another span of the same input, or through another input.
  via: u8,
  /// Logs with the methods instead of the macros.
  method: bool,
  /// How often it is repeated.
  again: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  /// 0: file, 1: standard input, 2: buffer.
  ftypes: [u8; 2],
  path: String,
  calls: Vec<Call>,
}

fn perform(s: &Span, c: &Call) -> Option<Error> {
  let msg = &c.msg;
  Some(match (c.level, c.method) {
    (Level::Error, false) => log_error!(s, "{msg}"),
    (Level::Error, true) => s.log_error(format_args!("{msg}")),
    (Level::Fatal, false) => log_fatal_error!(s, "{}", c.msg),
    (Level::Fatal, true) => s.log_fatal_error(format_args!("{msg}")),
    (Level::RawError, false) => log_raw_error!(s, "{msg}"),
    (Level::RawError, true) => s.log_raw_error(format_args!("{msg}")),
    (Level::RawFatal, false) => log_raw_fatal_error!(s, "{msg}"),
    (Level::RawFatal, true) => s.log_raw_fatal_error(format_args!("{msg}")),
    (Level::Warning, false) => {
      log_warning!(s, "{msg}");
      return None;
    }
    (Level::Warning, true) => {
      s.log_warning(format_args!("{msg}"));
      return None;
    }
    (Level::RawWarning, false) => {
      log_raw_warning!(s, "{msg}");
      return None;
    }
    (Level::RawWarning, true) => {
      s.log_raw_warning(format_args!("{msg}"));
      return None;
    }
    (Level::Summary, _) => {
      s.log_summary();
      return None;
    }
  })
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let ft = |i: u8| match plan.ftypes[i as usize % 2] {
    0 => FileType::File(Path::new(&plan.path).into()),
    1 => FileType::Stdin,
    _ => FileType::Buffer,
  };
  let file = Rc::new(RefCell::new(Feed::new(b"some text\nin a file\n".to_vec(), Vec::new(), 0)));
  os::with(|o| o.files.push((plan.path.clone(), Node::Feeds(vec![file]))));
  let roots = [Span::new(ft(0)), Span::new(ft(1))];
  let mut others = roots.clone();
  let (mut errors, mut warnings) = ([0, 0], [0, 0]);
  let calls = plan.calls.iter().enumerate().flat_map(|(i, c)| (0..=c.again).map(move |_| (i, c)));
  for (i, c) in calls {
    let k = (c.via / 2 % 2) as usize;
    let base = if c.via % 2 == 0 { &roots[k] } else { &others[k] };
    let mut a = base.clone();
    a.update_loc(Location { line: c.start.0, col: c.start.1 });
    let mut b = base.clone();
    b.update_loc(Location { line: c.end.0, col: c.end.1 });
    let span = a.into_end_updated(b);
    let err = perform(&span, c);
    others[k].update(&'x');
    let at = format!("{}:{}:{}: {}", ft(k as u8), c.start.0, c.start.1, c.msg);
    let want = match c.level {
      Level::Error => Some(Error::Normal(at)),
      Level::Fatal => Some(Error::Fatal(at)),
      Level::RawError => Some(Error::Normal(c.msg.clone())),
      Level::RawFatal => Some(Error::Fatal(c.msg.clone())),
      _ => None,
    };
    match c.level {
      Level::Error | Level::Fatal | Level::RawError | Level::RawFatal => errors[k] += 1,
      Level::Warning | Level::RawWarning => warnings[k] += 1,
      Level::Summary => {}
    }
    ctx.log(|| format!("{c:?} -> {err:?}"));
    ensure!(err == want, "error", "call {i} {c:?}: returned {err:?}, expected {want:?}");
    if let Some(e) = &err {
      let fatal = matches!(c.level, Level::Fatal | Level::RawFatal);
      ensure!(e.is_fatal() == fatal, "kind", "call {i} {c:?}: the severity of {e:?} is wrong");
    }
    let printed = os::take_stderr();
    ensure!(
      printed.is_empty(),
      "printed",
      "call {i} {c:?}: printed {:?}",
      String::from_utf8_lossy(&printed)
    );
    ensure!(os::with(|o| o.opens) == 0, "opened", "call {i} {c:?}: opened a file");
    for k in 0..2 {
      for s in [&roots[k], &others[k]] {
        ensure!(
          s.error_num() == errors[k] && s.warning_num() == warnings[k],
          "count",
          "call {i} {c:?}: {} errors and {} warnings counted, expected {} and {}",
          s.error_num(),
          s.warning_num(),
          errors[k],
          warnings[k]
        );
      }
    }
  }
  ctx.count("probe.reports", plan.calls.len() as u64);
  ctx.nontrivial = plan.calls.iter().any(|c| c.level != Level::Summary);
  Ok(())
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  use Level::*;
  let n = r.range(1, if deep { 20 } else { 8 });
  let edge = [0, 1, 2, 3, 9, 65535, 65536, u32::MAX - 1, u32::MAX];
  let calls = (0..n)
    .map(|i| Call {
      level: *r.pick(&[Error, Error, Fatal, Fatal, Warning, RawError, RawFatal, RawWarning, Summary]),
      start: (*r.pick(&edge), *r.pick(&edge)),
      end: (*r.pick(&edge), *r.pick(&edge)),
      msg: match r.below(5) {
        0 => String::new(),
        1 => "{}%s\\n {0}\n: 1:2".into(),
        2 => "多 bytes \u{301}".into(),
        3 => gen_text(r, 300),
        _ => format!("message {i}"),
      },
      via: r.below(4) as u8,
      method: r.chance(1, 2),
      // sometimes more than fit into a byte, or into 16 bits
      again: match r.below(200_000) {
        0 => r.range(65_530, 65_600),
        1..=200 => r.range(250, 600),
        _ => 0,
      },
    })
    .collect();
  Plan {
    ftypes: [r.below(3) as u8, r.below(3) as u8],
    path: r.pick(&["/simfs/x", "/simfs/a b/\u{e9}: 1.txt"]).to_string(),
    calls,
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("reports", 1, 1, gen, run)]
}
