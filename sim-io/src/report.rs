//! D02, D03: diagnostics over a simulated file system and standard error.

use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Span, Spanned, TrySpan};
use laps::token::Token;
use laps::{
  log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning,
};
use serde::{Deserialize, Serialize};
use simcore::color::strip;
use simcore::excerpt::excerpt;
use simcore::model::*;
use simcore::os::{self, Node, WStep};
use simcore::{ensure, Ctx, Feed, Prop, Rng, Step, Viol};
use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Level {
  Error,
  Fatal,
  Warning,
  RawError,
  RawFatal,
  RawWarning,
  Summary,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
  level: Level,
  start: (u32, u32),
  end: (u32, u32),
  msg: String,
  /// Which span of the input the call uses, see [`Origins::get`].
  origin: u8,
  /// How often it is repeated.
  again: usize,
}

/// State of the file when it is opened for the nth time.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum OnDisk {
  Missing,
  OpenError(u8),
  Doc(Source),
  /// Every read fails.
  Broken(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan2 {
  /// 0: file, 1: standard input, 2: buffer.
  ftype: u8,
  path: String,
  disk: OnDisk,
  /// Contents at later times the file is opened.
  later: Vec<OnDisk>,
  calls: Vec<Call>,
  wsteps: Vec<WStep>,
  /// Reports are printed in colours.
  #[serde(default)]
  colors: bool,
}

fn feed_of(d: &OnDisk) -> Option<Rc<RefCell<Feed>>> {
  match d {
    OnDisk::Doc(s) => Some(Rc::new(RefCell::new(s.feed()))),
    OnDisk::Broken(e) => Some(Rc::new(RefCell::new(Feed::new(
      vec![b'x'; 64],
      vec![Step::Fail(*e); 10_000],
      0,
    )))),
    _ => None,
  }
}

fn set_span(span: &Span, start: (u32, u32), end: (u32, u32)) -> Span {
  let mut a = span.clone();
  a.update_loc(Location {
    line: start.0,
    col: start.1,
  });
  let mut b = span.clone();
  b.update_loc(Location {
    line: end.0,
    col: end.1,
  });
  a.into_end_updated(b)
}

/// Number of different [`Origins`].
const ORIGINS: usize = 14;

/// All ways to get a span of one input.
struct Origins {
  input: Reader<std::io::Cursor<&'static str>>,
  root: Span,
  other: Span,
}

impl Origins {
  fn new(ft: FileType) -> Self {
    let input = Reader::new(std::io::Cursor::new("some text\nto\tread ".repeat(40).leak() as &str), ft);
    let root = input.span().clone();
    let other = root.clone();
    Self { input, root, other }
  }

  fn get(&mut self, origin: u8) -> Span {
    let root = self.root.clone();
    let token = |span| Token::<u8> { kind: 1, span };
    match origin as usize % ORIGINS {
      0 => root,
      1 => self.other.clone(),
      2 => root.into_updated(&'x'),
      3 => self.other.clone().into_updated(&b'\n'),
      4 => self.input.peek_with_span().unwrap().1,
      5 => self.input.next_char_span().unwrap().1,
      6 => self.input.next_span().unwrap().clone(),
      7 => {
        let mut n = 3;
        let f = |_: &char| {
          n -= 1;
          n < 0
        };
        self.input.collect_with_span_until(f).unwrap().1
      }
      8 => root.into_end_updated(self.other.clone()),
      9 => token(root).span(),
      10 => (token(root), 1u8, token(self.other.clone())).span_of(),
      11 => Box::new(token(self.other.clone())).span(),
      12 => vec![None, Some(token(root)), None, Some(token(self.other.clone()))].try_span().unwrap(),
      _ => Some(token(self.input.span().clone())).try_span().unwrap(),
    }
  }
}

/// The span of a tuple with a part that has no span.
trait SpanOf {
  fn span_of(&self) -> Span;
}

impl SpanOf for (Token<u8>, u8, Token<u8>) {
  fn span_of(&self) -> Span {
    self.span()
  }
}

/// Performs the call, returns whether the result has the right kind.
fn perform(span: &Span, c: &Call) -> bool {
  let s = set_span(span, c.start, c.end);
  let msg = &c.msg;
  match c.level {
    Level::Error => !log_error!(s, "{msg}").is_fatal(),
    Level::Fatal => log_fatal_error!(s, "{msg}").is_fatal(),
    Level::Warning => {
      log_warning!(s, "{msg}");
      true
    }
    Level::RawError => !log_raw_error!(s, "{msg}").is_fatal(),
    Level::RawFatal => log_raw_fatal_error!(s, "{msg}").is_fatal(),
    Level::RawWarning => {
      log_raw_warning!(s, "{msg}");
      true
    }
    Level::Summary => {
      s.log_summary();
      true
    }
  }
}

fn plural(n: usize, what: &str) -> String {
  match n {
    0 => String::new(),
    1 => format!("1 {what}"),
    n => format!("{n} {what}s"),
  }
}

/// The text that a call must print, without the excerpt of the file.
fn header(c: &Call, ft: &FileType, errors: usize, warnings: usize) -> (String, String) {
  let tag = match c.level {
    Level::Error | Level::Fatal | Level::RawError | Level::RawFatal => "error",
    Level::Warning | Level::RawWarning => "warning",
    Level::Summary => {
      let (e, w) = (plural(errors, "error"), plural(warnings, "warning"));
      let and = if e.is_empty() || w.is_empty() { "" } else { " and " };
      return (format!("{e}{and}{w} emitted\n"), String::new());
    }
  };
  let raw = matches!(c.level, Level::RawError | Level::RawFatal | Level::RawWarning);
  if raw {
    (format!("{tag}: {}\n", c.msg), String::new())
  } else {
    (
      format!("{tag}: {}\n  at {ft}:{}:{}\n", c.msg, c.start.0, c.start.1),
      "\n".into(),
    )
  }
}

fn count_os(ctx: &mut Ctx) {
  let (o, oe, sw, ew) = os::with(|o| (o.opens, o.open_errors, o.short_writes, o.eintr_writes));
  ctx.count("sim.opens", o);
  ctx.count("fault.open_failed", oe);
  ctx.count("fault.short_write", sw);
  ctx.count("fault.EINTR_write", ew);
}

const FILE: &str = "/simfs/dir/source.txt";

fn run2(plan: &Plan2, ctx: &mut Ctx) -> Result<(), Viol> {
  let ft = match plan.ftype {
    0 => FileType::File(Path::new(&plan.path).into()),
    1 => FileType::Stdin,
    _ => FileType::Buffer,
  };
  let mut nodes = Vec::new();
  let mut open_error = None;
  for d in std::iter::once(&plan.disk).chain(&plan.later) {
    match d {
      OnDisk::Missing => break,
      OnDisk::OpenError(e) => {
        open_error = Some(*e);
        break;
      }
      d => nodes.extend(feed_of(d)),
    }
  }
  let all = nodes.clone();
  os::with(|o| {
    o.wsteps = plan.wsteps.clone();
    if !nodes.is_empty() {
      o.files.push((plan.path.clone(), Node::Feeds(nodes)));
    } else if let Some(e) = open_error {
      o.files.push((plan.path.clone(), Node::OpenError(e)));
    }
  });
  colored::control::set_override(plan.colors);
  let mut spans = Origins::new(ft.clone());
  // another input, which has nothing to report
  let stranger = Span::new(ft.clone());
  let (mut errors, mut warnings) = (0, 0);
  let calls = plan.calls.iter().enumerate().flat_map(|(i, c)| (0..=c.again).map(move |_| (i, c)));
  for (i, c) in calls {
    let span = spans.get(c.origin);
    match c.level {
      Level::Error | Level::Fatal | Level::RawError | Level::RawFatal => errors += 1,
      Level::Warning | Level::RawWarning => warnings += 1,
      Level::Summary => {}
    }
    let (head, end) = header(c, &ft, errors, warnings);
    ensure!(perform(&span, c), "kind", "call {i} {c:?}: wrong kind of error");
    spans.other.update(&'x');
    let (text, styles) = printed(plan.colors);
    ctx.log(|| format!("{c:?} -> {text:?} {}", styles.join(",").len()));
    ensure!(
      text.starts_with(&head) && text.len() >= head.len() + end.len() && text.ends_with(&end),
      "report",
      "call {i} {c:?}: printed {text:?}, expected {head:?} ... {end:?}"
    );
    let excerpt = &text[head.len()..text.len() - end.len()];
    let may = plan.ftype == 0 && !all.is_empty() && !end.is_empty();
    ensure!(
      may || excerpt.is_empty(),
      "report",
      "call {i} {c:?}: printed {text:?}, there is no excerpt to print"
    );
    if !excerpt.is_empty() {
      ctx.count("probe.excerpt", 1);
    }
    if plan.colors && c.level != Level::Summary {
      // the lines of an excerpt are known to D03 only
      check_colors(&text, &styles, "", &end)?;
      ctx.count("probe.colored", 1);
    }
    for s in [&spans.root, &spans.other, spans.input.span(), &span] {
      ensure!(
        s.error_num() == errors && s.warning_num() == warnings,
        "count",
        "call {i} {c:?}: {} errors and {} warnings counted, expected {errors} and {warnings}",
        s.error_num(),
        s.warning_num()
      );
    }
    for s in [&stranger, &Span::new(ft.clone())] {
      ensure!(
        s.error_num() + s.warning_num() == 0,
        "count",
        "call {i} {c:?}: {} errors and {} warnings counted for another input",
        s.error_num(),
        s.warning_num()
      );
    }
  }
  for f in &all {
    ctx.count_feed(&f.borrow());
  }
  count_os(ctx);
  ctx.nontrivial = plan.calls.iter().any(|c| c.level as u8 <= 2) && plan.ftype == 0;
  Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mark {
  /// Range of characters of the document.
  from: usize,
  to: usize,
  level: Level,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan3 {
  /// Delivery to the reader.
  source: Source,
  /// Deliveries to the logger.
  again: Vec<(Vec<Step>, usize)>,
  marks: Vec<Mark>,
  /// Takes the spans from a reader of the file.
  via_reader: bool,
  bytes: bool,
  wsteps: Vec<WStep>,
  /// Reports are printed in colours.
  #[serde(default)]
  colors: bool,
}

/// What was printed, without the colours; and the colours of the characters.
fn printed(colors: bool) -> (String, Vec<String>) {
  let text = String::from_utf8_lossy(&os::take_stderr()).into_owned();
  match colors {
    true => strip(&text),
    false => (text, Vec::new()),
  }
}

/// Checks the colours of a report: its label has one, the marks of the excerpt have
/// the same one, and what is printed next has none.
fn check_colors(text: &str, styles: &[String], excerpt: &str, end: &str) -> Result<(), Viol> {
  let label = &styles[0];
  ensure!(!label.is_empty(), "color", "the label of the report has no colour: {text:?}");
  ensure!(styles.last().unwrap().is_empty(), "color", "the colour does not end with the report: {text:?}");
  let chars: Vec<char> = text.chars().collect();
  let lines: Vec<&str> = excerpt.split_inclusive('\n').collect();
  let mut at = chars.len() - end.chars().count() - excerpt.chars().count();
  for (i, line) in lines.iter().enumerate() {
    let n = line.chars().count();
    if i == 2 || i + 1 == lines.len() {
      for j in at..at + n {
        ensure!(
          !"^_".contains(chars[j]) || styles[j] == *label,
          "color",
          "the marks have not the colour of the label: {text:?}"
        );
      }
    }
    at += n;
  }
  Ok(())
}

/// Reads up to the end of a mark, returns the span of its characters.
fn span_of<I: InputStream>(input: &mut I, pos: &mut usize, m: &Mark) -> Option<Span> {
  while *pos < m.from {
    input.next_char().ok()??;
    *pos += 1;
  }
  let (c, mut span) = input.next_char_span().ok()?;
  c?;
  *pos += 1;
  while *pos <= m.to {
    let (c, s) = input.next_char_span().ok()?;
    c?;
    span.update_end(s);
    *pos += 1;
  }
  Some(span)
}

fn run3(plan: &Plan3, ctx: &mut Ctx) -> Result<(), Viol> {
  let doc = &plan.source.doc;
  let units: Vec<u32> = if plan.bytes && plan.via_reader {
    doc.bytes().map(|b| b as u32).collect()
  } else {
    doc.chars().map(|c| c as u32).collect()
  };
  let mut locs = Vec::new();
  let mut loc = (1, 0);
  for c in &units {
    loc = advance(loc, *c);
    locs.push(loc);
  }
  let mut feeds = vec![Rc::new(RefCell::new(plan.source.feed()))];
  for (steps, tail) in &plan.again {
    let f = Feed::new(doc.clone().into_bytes(), steps.clone(), *tail);
    feeds.push(Rc::new(RefCell::new(f)));
  }
  let mut marks: Vec<Mark> = plan.marks.clone();
  marks.retain(|m| !locs.is_empty() && m.from <= m.to && m.to < locs.len());
  marks.sort_by_key(|m| m.from);
  if plan.via_reader {
    // the marks must not overlap
    let mut end = 0;
    marks.retain(|m| {
      let keep = m.from >= end;
      if keep {
        end = m.to + 1;
      }
      keep
    });
  }
  if feeds.len() < marks.len() + 1 {
    // one delivery of the file per open
    while feeds.len() < marks.len() + 1 {
      let f = Feed::new(doc.clone().into_bytes(), Vec::new(), 0);
      feeds.push(Rc::new(RefCell::new(f)));
    }
  }
  let kept = feeds.clone();
  if !plan.via_reader {
    feeds.remove(0);
    if feeds.is_empty() {
      return Ok(());
    }
  }
  os::with(|o| {
    o.wsteps = plan.wsteps.clone();
    o.files.push((FILE.into(), Node::Feeds(feeds)));
  });
  let ft = FileType::File(Path::new(FILE).into());
  let mut chars = None;
  let mut bytes = None;
  let base = if !plan.via_reader {
    Span::new(ft.clone())
  } else if plan.bytes {
    let r = ByteReader::from_path(FILE).expect("HARNESS open");
    let s = r.span().clone();
    bytes = Some(r);
    s
  } else {
    let r = Reader::from_path(FILE).expect("HARNESS open");
    let s = r.span().clone();
    chars = Some(r);
    s
  };
  let mut pos = 0;
  let mut label_colors = [Vec::new(), Vec::new()];
  colored::control::set_override(plan.colors);
  for m in &marks {
    let (s, e) = (locs[m.from], locs[m.to]);
    let span = if let Some(r) = &mut chars {
      span_of(r, &mut pos, m)
    } else if let Some(r) = &mut bytes {
      span_of(r, &mut pos, m)
    } else {
      Some(set_span(&base, s, e))
    };
    let span = match span {
      Some(s) => s,
      None => return Viol::new("document", "the reader lost characters"),
    };
    let got = (
      (span.start().line, span.start().col),
      (span.end().line, span.end().col),
    );
    ensure!(got == (s, e), "location", "{m:?}: span {got:?}, expected {:?}", (s, e));
    os::take_stderr();
    let tag = match m.level {
      Level::Warning => {
        log_warning!(span, "marked");
        "warning"
      }
      Level::Fatal => {
        log_fatal_error!(span, "marked");
        "error"
      }
      _ => {
        log_error!(span, "marked");
        "error"
      }
    };
    let (text, styles) = printed(plan.colors);
    ctx.log(|| format!("{m:?} -> {text} {}", styles.join(",").len()));
    let ex = excerpt(doc, s, e);
    if !ex.is_empty() {
      ctx.count(if s.0 == e.0 { "probe.single_line" } else { "probe.multi_line" }, 1);
      if ex.contains("..") && e.0 - s.0 > 5 {
        ctx.count("probe.elided", 1);
      }
      ctx.nontrivial = true;
    }
    let want = format!("{tag}: marked\n  at {FILE}:{}:{}\n{ex}\n", s.0, s.1);
    ensure!(text == want, "excerpt", "{m:?}: printed\n{text}expected\n{want}");
    if plan.colors {
      check_colors(&text, &styles, &ex, "\n")?;
      let colors = &mut label_colors[(m.level == Level::Warning) as usize];
      colors.push(styles[0].clone());
      ctx.count("probe.colored", 1);
    }
  }
  let [errors, warnings] = label_colors;
  ensure!(
    !errors.iter().any(|e| warnings.contains(e)),
    "color",
    "errors and warnings have the same colour"
  );
  for f in &kept {
    ctx.count_feed(&f.borrow());
  }
  count_os(ctx);
  Ok(())
}

fn gen_lines(r: &mut Rng, max: usize) -> String {
  let n = r.size(max);
  let ending = *r.pick(&["\n", "\n", "\n", "\r\n"]);
  let mut s = String::new();
  for i in 0..n {
    let k = r.size(24);
    let style = r.below(4);
    for _ in 0..k {
      s.push(match style {
        0 => (b'a' + r.below(26) as u8) as char,
        1 => *r.pick(&['a', 'b', '\t', ' ', '=']),
        2 => *r.pick(&['a', '你', '好', '\u{1f602}', 'é', 'ß', '\t']),
        _ => *r.pick(&['a', '\u{301}', '\0', '\u{200b}', '\r', 'z', '\u{ff21}', '\u{1b}']),
      });
    }
    if i + 1 < n || r.chance(2, 3) {
      s += ending;
    }
  }
  s
}

fn gen_level(r: &mut Rng) -> Level {
  use Level::*;
  *r.pick(&[Error, Error, Error, Fatal, Warning, Warning, RawError, RawFatal, RawWarning, Summary])
}

fn gen_disk(r: &mut Rng) -> OnDisk {
  match r.below(12) {
    0 => OnDisk::Missing,
    1 => OnDisk::OpenError(r.below(8) as u8),
    2 => OnDisk::Broken(r.below(8) as u8),
    _ => {
      let doc = if r.chance(1, 3) { gen_text(r, 3000) } else { gen_lines(r, 40) };
      let corrupt = if r.chance(1, 3) { gen_corrupt(r, doc.len()) } else { Vec::new() };
      let f = Faults {
        eintr: true,
        fail: r.chance(1, 3),
        eof: r.chance(1, 8),
      };
      let (steps, tail) = gen_steps(r, doc.len(), f);
      OnDisk::Doc(Source {
        doc,
        corrupt,
        steps,
        tail,
      })
    }
  }
}

fn gen2(r: &mut Rng, deep: bool) -> Plan2 {
  let disk = gen_disk(r);
  let later = (0..r.below(4)).map(|_| gen_disk(r)).collect();
  // persistent read failures and far away lines would only be slow
  let lines = match &disk {
    OnDisk::Doc(s) => s.doc.lines().count() as u32,
    _ => 4,
  };
  let edge = [0, 1, 2, 9, 10, 99, 1000];
  let style = r.below(4);
  let coord = |r: &mut Rng| -> (u32, u32) {
    match style {
      0 => (r.below(lines as usize + 3) as u32, r.below(30) as u32),
      1 => (
        *r.pick(&[0, 1, lines, lines + 1, 5]),
        *r.pick(&[0, 1, 2, 1023, 65534, 65535, 65536, u32::MAX - 1, u32::MAX]),
      ),
      2 => (*r.pick(&edge), *r.pick(&edge)),
      _ => (
        *r.pick(&[1, 2, lines, u32::MAX - 1, u32::MAX]),
        *r.pick(&[0, 1, 3, u32::MAX]),
      ),
    }
  };
  let n = r.range(1, if deep { 12 } else { 6 });
  let calls = (0..n)
    .map(|i| {
      let start = coord(r);
      let end = match r.below(4) {
        0 => start,
        1 => (start.0, start.1.saturating_add(r.below(12) as u32)),
        2 => (start.0.saturating_add(r.below(9) as u32), coord(r).1),
        _ => coord(r),
      };
      Call {
        level: gen_level(r),
        start,
        end,
        msg: match r.below(5) {
          0 => String::new(),
          1 => "{}%s\\n {0}".into(),
          2 => "多 bytes \u{301}".into(),
          3 => "x".repeat(r.range(1, 3000)),
          _ => format!("message {i}"),
        },
        origin: r.below(ORIGINS) as u8,
        again: 0,
      }
    })
    .collect::<Vec<_>>();
  // sometimes more reports than fit into a byte, or into 16 bits
  let mut calls = calls;
  let mut ftype = [0, 0, 0, 0, 1, 2][r.below(6)];
  let scale = match r.below(100_000) {
    0 | 1 => 65_530..65_600,
    2..=400 => 250..600,
    _ => 0..1,
  };
  if scale.start > 0 {
    let k = r.below(calls.len());
    let c = &mut calls[k];
    if scale.start > 1000 {
      ftype = r.range(1, 2);
    }
    c.msg.truncate(0);
    c.again = r.range(scale.start, scale.end);
  }
  Plan2 {
    ftype: ftype as _,
    path: r.pick(&[FILE, "/simfs/a b/\u{e9}.txt", "/simfs/x"]).to_string(),
    disk,
    later,
    calls,
    wsteps: gen_wsteps(r),
    colors: r.chance(1, 6),
  }
}

fn gen3(r: &mut Rng, deep: bool) -> Plan3 {
  let doc = match r.below(5) {
    // many lines, or long ones
    _ if r.chance(1, 4000) => match r.below(3) {
      0 => gen_huge(r),
      _ => {
        let n = r.range(5000, 12_000);
        let w = r.range(2, 30);
        (0..n).map(|i| format!("{:w$}{i}\n", "")).collect()
      }
    },
    0 => gen_text(r, 2500),
    1 => {
      // many lines
      let n = r.range(90, 1200);
      (0..n).map(|i| if i % 7 == 3 { "\n".into() } else { format!("line {i}\n") }).collect()
    }
    _ => gen_lines(r, 30),
  };
  let n = doc.chars().count();
  let f = Faults {
    eintr: true,
    ..Default::default()
  };
  let (steps, tail) = gen_steps(r, doc.len(), f);
  let k = r.range(1, if deep { 10 } else { 5 });
  let again = (0..r.range(0, k)).map(|_| gen_steps(r, doc.len(), f)).collect();
  let marks = (0..k)
    .map(|_| {
      let from = r.below(n.max(1));
      let len = match r.below(5) {
        0 => 0,
        1 | 2 => r.below(12),
        3 => r.below(90),
        _ => r.below(n.max(1)),
      };
      Mark {
        from,
        to: (from + len).min(n.saturating_sub(1)),
        level: *r.pick(&[Level::Error, Level::Fatal, Level::Warning]),
      }
    })
    .collect();
  Plan3 {
    source: Source {
      doc,
      corrupt: Vec::new(),
      steps,
      tail,
    },
    again,
    marks,
    via_reader: r.chance(1, 2),
    bytes: r.chance(1, 4),
    wsteps: gen_wsteps(r),
    colors: r.chance(1, 4),
  }
}

const REAL: &[&str] = &[
  "laps::span (Span, Error, logger, excerpts)",
  "laps::reader (spans taken from readers)",
  "std::fs::File, std::io::BufReader, std::io::Stderr",
];
const STUB: &[&str] = &["the kernel below std: open, read, write(2), close, getrandom"];

pub fn props() -> Vec<Prop> {
  vec![
    Prop::new("D02", 800_000, 60_000_000, gen2, run2)
      .rule("one run = one input (file, standard input or buffer), the states of the file at each time it is opened (missing, unreadable, failing, corrupted, shrunk, changed), a trace of its reads, a trace of short and interrupted writes to the standard error, and a sequence of reports with arbitrary spans; non-trivial = at least one report with a location in a file")
      .real(REAL)
      .stub(STUB)
      .assumptions(&["writes to the standard error may be short or interrupted, but do not fail: the standard library panics if they do"]),
    Prop::new("D03", 500_000, 40_000_000, gen3, run3)
      .rule("one run = one document, one delivery trace per time the file is opened, a trace of writes, and a set of character ranges that are reported (spans taken from a reader of the file or computed); non-trivial = at least one excerpt was printed")
      .real(REAL)
      .stub(STUB)
      .assumptions(&["the display width of a character is defined by the unicode-width crate, a tab has width 2"]),
  ]
}
