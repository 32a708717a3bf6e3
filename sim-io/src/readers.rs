//! R01, R02, R03: readers over a simulated source.

use crate::diag;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Result as LResult, Span};
use serde::{Deserialize, Serialize};
use simcore::feed::error_of;
use simcore::model::*;
use simcore::os::{self, Node};
use simcore::{ensure, Ctx, Feed, Prop, Rng, SimRead, Viol};
use std::cell::RefCell;
use std::io::BufRead;
use std::rc::Rc;

/// A unit of the input stream.
trait Unit: Clone + PartialEq + std::fmt::Debug + Copy {
  fn code(&self) -> u32;
  fn from_code(c: u32) -> Self;
}

impl Unit for char {
  fn code(&self) -> u32 {
    *self as u32
  }
  fn from_code(c: u32) -> Self {
    char::from_u32(c).unwrap_or('?')
  }
}

impl Unit for u8 {
  fn code(&self) -> u32 {
    *self as u32
  }
  fn from_code(c: u32) -> Self {
    c as u8
  }
}

/// An input stream that only has the required methods,
/// all other methods are the default ones.
struct Minimal<I>(I);

impl<I: InputStream> InputStream for Minimal<I> {
  type CharType = I::CharType;
  fn next_char_loc(&mut self) -> LResult<(Option<I::CharType>, Location)> {
    self.0.next_char_loc()
  }
  fn unread(&mut self, last: (Option<I::CharType>, Location)) {
    self.0.unread(last)
  }
  fn span(&self) -> &Span {
    self.0.span()
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.0.set_line_col(line, col)
  }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Kind {
  Chars,
  Bytes,
  CharsMinimal,
  BytesMinimal,
  CharsFile,
  BytesFile,
  CharsStdin,
  BytesStdin,
  CharsStr,
  CharsString,
  BytesSlice,
  BytesStr,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  NextLoc,
  NextChar,
  NextCharSpan,
  NextSpan,
  Peek,
  PeekSpan,
  Unread,
  UnreadOther(u32),
  SkipUntil(Pred),
  CollectUntil(Pred),
  CollectSpanUntil(Pred),
  SetLineCol(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pred {
  Newline,
  Space,
  Is(u32),
  Mod(u32, u32),
  Always,
  Never,
}

impl Pred {
  fn holds(&self, c: u32) -> bool {
    match self {
      Pred::Newline => c == 10,
      Pred::Space => c == 32 || (9..=13).contains(&c),
      Pred::Is(x) => c == *x,
      Pred::Mod(m, k) => c % m.max(&1) == *k,
      Pred::Always => true,
      Pred::Never => false,
    }
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  kind: Kind,
  source: Source,
  ops: Vec<Op>,
  /// Repeats the operations until the end of the document.
  cycle: bool,
}

/// Shared view on the source, [`None`] for in-memory documents.
type Shared = Option<Rc<RefCell<Feed>>>;

fn drive<I, C>(mut input: I, feed: Shared, mut m: CharModel, plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol>
where
  I: InputStream<CharType = C>,
  C: Unit,
{
  let mut undo: Vec<(Option<C>, Location)> = Vec::new();
  let mut errors = 0usize;
  let mut reads = 0;
  let mut step = 0usize;
  let mut ends = 0;
  let ops = &plan.ops;
  let budget = ops.len() + plan.source.doc.len() * 3 + plan.source.steps.len() + 64;
  let unread_budget = ops.len() + 64;
  let mut unreads = 0;
  loop {
    // after the scripted operations read the rest of the document
    let op = if step < ops.len() {
      ops[step].clone()
    } else if plan.cycle && !ops.is_empty() && step < budget {
      ops[step % ops.len()].clone()
    } else {
      Op::NextLoc
    };
    step += 1;
    ensure!(step < budget * 2 + 1000, "no-end", "the document does not end after {step} operations");
    let before_reads = feed.as_ref().map_or(0, |f| f.borrow().log.len());
    // applies the model to the result
    macro_rules! refresh {
      () => {
        if let Some(f) = &feed {
          m.refresh(&f.borrow())
        }
      };
    }
    macro_rules! expect_item {
      ($e:expr) => {
        match $e {
          Some(i) => i,
          None => {
            return Viol::new(
              "no-cause",
              format!("step {step} {op:?}: returned although the source has nothing new"),
            )
          }
        }
      };
    }
    let loc_of = |l: Location| (l.line, l.col);
    let mut failed: Option<Item> = None;
    let mut end = false;
    // `got` and `want` as comparable text
    let (got, want): (String, String) = match &op {
      Op::NextLoc => {
        let r = input.next_char_loc();
        refresh!();
        let at = m.loc;
        let item = expect_item!(m.take());
        let want = match item {
          Item::Char(c) => format!("Ok({c:#x} last {at:?})"),
          Item::Eof => format!("Ok(end last {at:?})"),
          e => {
            failed = Some(e);
            "fatal error".into()
          }
        };
        end = item == Item::Eof;
        let got = match &r {
          Ok((Some(c), l)) => format!("Ok({:#x} last {:?})", c.code(), loc_of(*l)),
          Ok((None, l)) => format!("Ok(end last {:?})", loc_of(*l)),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        if let Ok(last) = r {
          undo.push(last);
        }
        (got, want)
      }
      Op::NextChar => {
        let r = input.next_char();
        refresh!();
        undo.clear();
        let item = expect_item!(m.take());
        end = item == Item::Eof;
        let want = match item {
          Item::Char(c) => format!("Ok({c:#x})"),
          Item::Eof => "Ok(end)".into(),
          e => {
            failed = Some(e);
            "fatal error".into()
          }
        };
        let got = match &r {
          Ok(Some(c)) => format!("Ok({:#x})", c.code()),
          Ok(None) => "Ok(end)".into(),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::NextCharSpan => {
        let r = input.next_char_span();
        refresh!();
        undo.clear();
        let item = expect_item!(m.take());
        end = item == Item::Eof;
        let at = m.loc;
        let want = match item {
          Item::Char(c) => format!("Ok({c:#x} at {at:?}-{at:?})"),
          Item::Eof => format!("Ok(end at {at:?}-{at:?})"),
          e => {
            failed = Some(e);
            "fatal error".into()
          }
        };
        let got = match &r {
          Ok((c, s)) => format!(
            "Ok({} at {:?}-{:?})",
            c.map_or("end".into(), |c| format!("{:#x}", c.code())),
            loc_of(s.start()),
            loc_of(s.end())
          ),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::NextSpan => {
        let got = match input.next_span() {
          Ok(s) => format!("Ok({:?}-{:?})", loc_of(s.start()), loc_of(s.end())),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        refresh!();
        undo.clear();
        let item = expect_item!(m.take());
        end = item == Item::Eof;
        let at = m.loc;
        let want = match item {
          Item::Char(_) | Item::Eof => format!("Ok({at:?}-{at:?})"),
          e => {
            failed = Some(e);
            "fatal error".into()
          }
        };
        (got, want)
      }
      Op::Peek => {
        let r = input.peek();
        refresh!();
        let item = expect_item!(m.peek());
        end = item == Item::Eof;
        let want = match item {
          Item::Char(c) => format!("Ok({c:#x})"),
          Item::Eof => "Ok(end)".into(),
          e => {
            failed = Some(e);
            "fatal error".into()
          }
        };
        let got = match &r {
          Ok(Some(c)) => format!("Ok({:#x})", c.code()),
          Ok(None) => "Ok(end)".into(),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::PeekSpan => {
        let r = input.peek_with_span();
        refresh!();
        let item = expect_item!(m.peek());
        end = item == Item::Eof;
        let want = match item {
          Item::Char(c) => {
            let at = advance(m.loc, c);
            format!("Ok({c:#x} at {at:?}-{at:?})")
          }
          Item::Eof => {
            let at = m.loc;
            format!("Ok(end at {at:?}-{at:?})")
          }
          e => {
            failed = Some(e);
            "fatal error".into()
          }
        };
        let got = match &r {
          Ok((c, s)) => format!(
            "Ok({} at {:?}-{:?})",
            c.map_or("end".into(), |c| format!("{:#x}", c.code())),
            loc_of(s.start()),
            loc_of(s.end())
          ),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::Unread => {
        unreads += 1;
        if unreads > unread_budget {
          continue;
        }
        match undo.pop() {
          Some((c, l)) => {
            input.unread((c, l));
            m.unread(c.map(|c| c.code()), loc_of(l));
            ctx.count("probe.unread", 1);
          }
          None => continue,
        }
        (String::new(), String::new())
      }
      Op::UnreadOther(c) => {
        unreads += 1;
        if unreads > unread_budget {
          continue;
        }
        // puts back another character than the one that was read
        match undo.pop() {
          Some((Some(_), l)) => {
            let c = C::from_code(*c);
            input.unread((Some(c), l));
            m.unread(Some(c.code()), loc_of(l));
            ctx.count("probe.unread_other", 1);
          }
          _ => continue,
        }
        (String::new(), String::new())
      }
      Op::SkipUntil(p) => {
        let mut seen = Vec::new();
        let r = input.skip_until(|c| {
          seen.push(c.code());
          p.holds(c.code())
        });
        refresh!();
        undo.clear();
        let mut want_seen = Vec::new();
        let want = loop {
          match expect_item!(m.peek()) {
            Item::Char(c) => {
              want_seen.push(c);
              if p.holds(c) {
                break "Ok".to_string();
              }
              m.take();
            }
            Item::Eof => {
              end = true;
              break "Ok".to_string();
            }
            e => {
              failed = Some(e);
              break "fatal error".into();
            }
          }
        };
        let got = match &r {
          Ok(()) => "Ok".to_string(),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::CollectUntil(p) => {
        let r = input.collect_until(|c| p.holds(c.code()));
        refresh!();
        undo.clear();
        let mut v = Vec::new();
        let want = loop {
          match expect_item!(m.peek()) {
            Item::Char(c) => {
              if p.holds(c) {
                break format!("Ok({v:x?})");
              }
              v.push(c);
              m.take();
            }
            Item::Eof => {
              end = true;
              break format!("Ok({v:x?})");
            }
            e => {
              failed = Some(e);
              break "fatal error".into();
            }
          }
        };
        let got = match &r {
          Ok(v) => format!("Ok({:x?})", v.iter().map(|c| c.code()).collect::<Vec<_>>()),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::CollectSpanUntil(p) => {
        let r = input.collect_with_span_until(|c| p.holds(c.code()));
        refresh!();
        undo.clear();
        let mut v = Vec::new();
        let first = expect_item!(m.look());
        let want = match first {
          Item::Char(c) => {
            let start = advance(m.loc, c);
            let mut last = start;
            loop {
              match expect_item!(m.peek()) {
                Item::Char(c) => {
                  if p.holds(c) {
                    break format!("Ok({v:x?} at {start:?}-{last:?})");
                  }
                  v.push(c);
                  m.take();
                  last = m.loc;
                }
                Item::Eof => {
                  end = true;
                  break format!("Ok({v:x?} at {start:?}-{last:?})");
                }
                e => {
                  failed = Some(e);
                  break "fatal error".into();
                }
              }
            }
          }
          Item::Eof => {
            m.peek();
            end = true;
            let at = m.loc;
            format!("Ok({v:x?} at {at:?}-{at:?})")
          }
          e => {
            m.peek();
            failed = Some(e);
            "fatal error".into()
          }
        };
        let got = match &r {
          Ok((v, s)) => format!(
            "Ok({:x?} at {:?}-{:?})",
            v.iter().map(|c| c.code()).collect::<Vec<_>>(),
            loc_of(s.start()),
            loc_of(s.end())
          ),
          Err(e) if diag::is_fatal(&e) => "fatal error".into(),
          Err(_) => "normal error".into(),
        };
        (got, want)
      }
      Op::SetLineCol(l, c) => {
        if step > ops.len() {
          continue;
        }
        input.set_line_col(*l, *c);
        m.loc = (*l, *c);
        (String::new(), String::new())
      }
    };
    // event log
    if let Some(f) = &feed {
      for o in &f.borrow().log[before_reads.min(f.borrow().log.len())..] {
        ctx.log(|| format!("  source: {o:?}"));
      }
    }
    ctx.log(|| format!("{op:?} -> {got}"));
    ensure!(got == want, "mismatch", "step {step} {op:?}: got {got}, expected {want}");
    if let (true, Some(f)) = (lazy(), &feed) {
      let calls = reads..f.borrow().log.len();
      reads = calls.end;
      if let Some(why) = m.eager(calls) {
        return Viol::new("eager", format!("step {step} {op:?}: {why}"));
      }
    }
    // the current location
    let span = input.span();
    let (s, e) = (loc_of(span.start()), loc_of(span.end()));
    ensure!(
      s == m.loc && e == m.loc,
      "location",
      "step {step} {op:?}: location {s:?}-{e:?}, expected {:?}",
      m.loc
    );
    // error reports
    let text = diag::take();
    if let Some(item) = failed {
      errors += 1;
      let msg = match item {
        Item::IoErr(e) => error_of(e).to_string(),
        _ => "UTF-8".to_string(),
      };
      // after invalid UTF-8 also errors of the source are possible
      ensure!(
        text.starts_with("error:") && (m.poisoned || text.contains(&msg)),
        "report",
        "step {step} {op:?}: failure reported as {text:?}, expected {msg:?}"
      );
      ctx.count("probe.failed_operations", 1);
      if item == Item::Bad {
        ctx.count("probe.invalid_utf8", 1);
      }
    } else {
      ensure!(text.is_empty(), "report", "step {step} {op:?}: unexpected report {text:?}");
    }
    let (n, w) = (span.error_num(), span.warning_num());
    ensure!(
      n == errors && w == 0,
      "count",
      "step {step} {op:?}: {n} errors and {w} warnings counted, expected {errors} and 0"
    );
    // stop after the end of the document has been seen twice
    if m.poisoned && failed.is_some() {
      ends += 1;
    }
    if end {
      let finished = feed
        .as_ref()
        .map_or(true, |f| f.borrow().pos == f.borrow().data.len() && f.borrow().next >= f.borrow().steps.len());
      if finished && step >= ops.len() {
        ends += 1;
      }
    } else if failed == Some(Item::Bad) && !m.poisoned {
      // incomplete character at the end of the document
      ends += 1;
    }
    if ends >= 3 && step >= ops.len() {
      break;
    }
  }
  ensure!(
    m.known() == 0 || m.poisoned || ends >= 3,
    "lost",
    "{} delivered characters were never returned",
    m.known()
  );
  Ok(())
}

const FILE: &str = "/simfs/input.txt";

fn drain_stdin() {
  os::with(|o| o.stdin = Some(Rc::new(RefCell::new(Feed::new(Vec::new(), Vec::new(), 0)))));
  let mut lock = std::io::stdin().lock();
  loop {
    let n = lock.fill_buf().map_or(0, |b| b.len());
    if n == 0 {
      break;
    }
    lock.consume(n);
  }
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let feed = SimRead::new(plan.source.feed());
  let shared = Some(feed.0.clone());
  let bytes = plan.source.bytes();
  let text = String::from_utf8_lossy(&bytes).into_owned();
  let r = match plan.kind {
    Kind::Chars => drive(Reader::new(feed.clone(), FileType::Buffer), shared, CharModel::new(true), plan, ctx),
    Kind::Bytes => drive(ByteReader::new(feed.clone(), FileType::Buffer), shared, CharModel::new(false), plan, ctx),
    Kind::CharsMinimal => {
      let r: Reader<_> = Reader::new(feed.clone(), FileType::Stdin);
      drive(Minimal(r), shared, CharModel::new(true), plan, ctx)
    }
    Kind::BytesMinimal => {
      let r: ByteReader<_> = ByteReader::new(feed.clone(), FileType::Stdin);
      drive(Minimal(r), shared, CharModel::new(false), plan, ctx)
    }
    Kind::CharsFile | Kind::BytesFile => {
      os::with(|o| o.files.push((FILE.into(), Node::Feeds(vec![feed.0.clone()]))));
      ctx.count("probe.file", 1);
      if plan.kind == Kind::CharsFile {
        let r = Reader::from_path(FILE).expect("HARNESS open");
        drive(r, shared, CharModel::new(true), plan, ctx)
      } else {
        let r = ByteReader::from_path(FILE).expect("HARNESS open");
        drive(r, shared, CharModel::new(false), plan, ctx)
      }
    }
    Kind::CharsStdin | Kind::BytesStdin => {
      drain_stdin();
      os::with(|o| o.stdin = Some(feed.0.clone()));
      ctx.count("probe.stdin", 1);
      let r = if plan.kind == Kind::CharsStdin {
        drive(Reader::from_stdin(), shared, CharModel::new(true), plan, ctx)
      } else {
        drive(ByteReader::from_stdin(), shared, CharModel::new(false), plan, ctx)
      };
      drain_stdin();
      r
    }
    Kind::CharsStr => drive(Reader::from(text.as_str()), None, CharModel::in_memory(true, text.as_bytes()), plan, ctx),
    Kind::CharsString => drive(Reader::from(text.clone()), None, CharModel::in_memory(true, text.as_bytes()), plan, ctx),
    Kind::BytesSlice => drive(ByteReader::from(&bytes[..]), None, CharModel::in_memory(false, &bytes), plan, ctx),
    Kind::BytesStr => drive(ByteReader::from(text.as_str()), None, CharModel::in_memory(false, text.as_bytes()), plan, ctx),
  };
  let f = feed.0.borrow();
  ctx.count_feed(&f);
  let datas = f.log.iter().filter(|o| matches!(o, simcore::Out::Data(_))).count();
  ctx.nontrivial = datas >= 2 && !f.data.is_empty();
  if f.log.iter().any(|o| matches!(o, simcore::Out::Data(_))) {
    let mut pos = 0;
    let mut splits = 0;
    for o in &f.log {
      if let simcore::Out::Data(n) = o {
        pos += n;
        if simcore::feed::incomplete_tail(&f.data[..pos]) > 0 {
          splits += 1;
        }
      }
    }
    ctx.count("probe.char_split_by_read", splits);
  }
  r
}

fn gen_pred(r: &mut Rng, doc: &str) -> Pred {
  match r.below(8) {
    0 | 1 => Pred::Newline,
    2 => Pred::Space,
    3 | 4 => {
      let n = doc.chars().count();
      Pred::Is(doc.chars().nth(r.below(n.max(1))).map_or(65, |c| c as u32))
    }
    5 => {
      let m = r.range(2, 9) as u32;
      Pred::Mod(m, r.below(m as usize) as u32)
    }
    6 => Pred::Always,
    _ => Pred::Never,
  }
}

fn gen_op(r: &mut Rng, doc: &str, w: &[usize; 12]) -> Op {
  match r.weighted(w) {
    0 => Op::NextLoc,
    1 => Op::NextChar,
    2 => Op::NextCharSpan,
    3 => Op::NextSpan,
    4 => Op::Peek,
    5 => Op::PeekSpan,
    6 => Op::Unread,
    7 => Op::UnreadOther(*r.pick(&[0x41, 0x0a, 0xe9, 0x4f60, 0x1f602])),
    8 => Op::SkipUntil(gen_pred(r, doc)),
    9 => Op::CollectUntil(gen_pred(r, doc)),
    10 => Op::CollectSpanUntil(gen_pred(r, doc)),
    _ => Op::SetLineCol(*r.pick(&[0, 1, 7, 1000]), *r.pick(&[0, 1, 80])),
  }
}

const LIVE: [Kind; 8] = [
  Kind::Chars,
  Kind::Bytes,
  Kind::CharsMinimal,
  Kind::BytesMinimal,
  Kind::CharsFile,
  Kind::BytesFile,
  Kind::CharsStdin,
  Kind::BytesStdin,
];

fn gen_kind(r: &mut Rng, memory: bool) -> Kind {
  if memory && r.chance(1, 12) {
    return *r.pick(&[Kind::CharsStr, Kind::CharsString, Kind::BytesSlice, Kind::BytesStr]);
  }
  LIVE[r.weighted(&[10, 5, 4, 2, 3, 2, 3, 2])]
}

fn gen(r: &mut Rng, deep: bool, faults: Faults, corrupt: bool, ws: &[[usize; 12]], max_ops: usize) -> Plan {
  let kind = gen_kind(r, true);
  let huge = r.chance(1, 5000);
  let doc = match huge {
    true => gen_huge(r),
    false => gen_text(r, if deep { 9000 } else { 3600 }),
  };
  let corrupt = if corrupt && r.chance(1, 2) {
    gen_corrupt(r, doc.len())
  } else {
    Vec::new()
  };
  let (steps, tail) = gen_steps(r, doc.len(), faults);
  let w = ws[r.below(ws.len())];
  let n = match r.below(4) {
    0 => r.range(1, 4),
    1 | 2 => r.range(1, 24.min(max_ops)),
    _ => r.range(1, max_ops),
  };
  let ops = (0..n).map(|_| gen_op(r, &doc, &w)).collect();
  Plan {
    kind,
    source: Source {
      doc,
      corrupt,
      steps,
      tail,
    },
    ops,
    cycle: r.chance(1, 2),
  }
}

const REAL: &[&str] = &[
  "laps::reader::{Reader, ByteReader}",
  "laps::input::InputStream (overridden and default methods)",
  "laps::span::{Span, Location} and the error logger",
  "std::fs::File, std::io::Stdin (including its buffer), std::io::Stderr",
];
const STUB: &[&str] = &[
  "byte sources (simulated Read)",
  "the kernel below std: open, read, write(2), close, getrandom, sched_getaffinity",
];

pub fn props() -> Vec<Prop> {
  vec![
    Prop::new(
      "R01",
      200_000,
      12_000_000,
      |r: &mut Rng, deep| {
        let f = Faults {
          eintr: true,
          ..Default::default()
        };
        gen(
          r,
          deep,
          f,
          false,
          &[
            [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
            [2, 2, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0],
            [1, 1, 1, 1, 3, 3, 0, 0, 0, 0, 0, 0],
            [2, 1, 0, 0, 1, 0, 0, 0, 1, 2, 2, 0],
          ],
          60,
        )
      },
      run,
    )
    .rule("one run = one document, one reader kind, one delivery trace (short reads, EINTR) and a workload of reading operations, all from the run's seed; non-trivial = the document was delivered in at least two reads")
    .real(REAL)
    .stub(STUB),
    Prop::new(
      "R02",
      200_000,
      12_000_000,
      |r: &mut Rng, deep| {
        let f = Faults {
          eintr: true,
          fail: true,
          eof: r.chance(1, 2),
        };
        gen(
          r,
          deep,
          f,
          true,
          &[
            [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
            [2, 2, 1, 1, 2, 2, 0, 0, 0, 0, 0, 0],
            [1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 0],
          ],
          60,
        )
      },
      run,
    )
    .rule("one run = one document (half of them with flipped, inserted, overwritten or cut bytes), one reader kind, a delivery trace with hard errors, transient errors, transient ends of file, EINTR and short reads; non-trivial = at least two deliveries")
    .real(REAL)
    .stub(STUB),
    Prop::new(
      "R03",
      200_000,
      12_000_000,
      |r: &mut Rng, deep| {
        let f = Faults {
          eintr: true,
          fail: r.chance(1, 2),
          eof: r.chance(1, 4),
        };
        gen(
          r,
          deep,
          f,
          false,
          &[
            [4, 1, 1, 1, 3, 3, 4, 1, 1, 1, 1, 1],
            [6, 0, 0, 0, 1, 1, 5, 2, 0, 0, 0, 0],
            [1, 1, 1, 1, 4, 4, 1, 0, 3, 3, 3, 1],
            [2, 0, 0, 0, 1, 1, 1, 0, 2, 2, 4, 2],
          ],
          200,
        )
      },
      run,
    )
    .rule("one run = one document, one reader kind, one delivery trace with faults and a workload that mixes reading, peeking, unreading, skipping, collecting and relocating; non-trivial = at least two deliveries")
    .real(REAL)
    .stub(STUB),
  ]
}
