//! X02: parallel and concurrent construction and use of matchers.

use crate::matcher::{gen_case, gen_wide, judge, Built, Case, Reference};
use crate::reports::TIME;
use crate::sched::{concrete, simulate, Machine, Sched};
use laps_regex::re::Error;
use regex_syntax::hir::{Class, Hir, HirKind};
use regex_syntax::ParserBuilder;
use rayon::{ThreadPool, ThreadPoolBuilder};
use serde::{Deserialize, Serialize};
use simcore::os::Os;
use simcore::{ensure, Ctx, Prop, Rng, Viol};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
  case: Case,
  /// As given to the builder.
  par: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Group {
  /// Runs in this pool, otherwise parallel work runs in the global one.
  pool: Option<usize>,
  /// The jobs are done in parallel themselves, by tasks of a pool.
  scope: bool,
  jobs: Vec<Job>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
  entropy: u64,
  cpus: usize,
  /// Numbers of workers of pools.
  pools: Vec<usize>,
  /// Each group of jobs has its own thread.
  groups: Vec<Group>,
  /// A matcher that is used by all threads at the same time, after its jobs.
  shared: Option<Case>,
  sched: Sched,
}

/// Largest number of states and atoms of the reference.
const STATES: usize = 30;
const ATOMS: usize = 30;
/// Largest sum of weights of expressions.
const WEIGHT: usize = 36;
/// The same for simple expressions over many symbols.
const WIDE_STATES: usize = 110;
const WIDE_ATOMS: usize = 130;
const WIDE_WEIGHT: usize = 130;

type Made = Result<Built, Error<usize>>;

/// Result of the simulated part.
struct Done {
  made: Vec<Vec<Made>>,
  shared: Option<Made>,
  matches: Vec<Vec<Option<usize>>>,
}

/// An estimate of the work that an expression causes.
fn weight(h: &Hir) -> usize {
  match h.kind() {
    HirKind::Empty | HirKind::Look(_) => 1,
    HirKind::Literal(l) => l.0.len(),
    HirKind::Class(Class::Unicode(c)) => c.ranges().len(),
    HirKind::Class(Class::Bytes(c)) => c.ranges().len(),
    HirKind::Repetition(r) => weight(&r.sub) * r.max.unwrap_or(r.min.max(2)).max(1) as usize + 1,
    HirKind::Capture(c) => weight(&c.sub),
    HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(weight).sum::<usize>() + 1,
  }
}

/// Nothing is repeated.
fn simple(h: &Hir) -> bool {
  match h.kind() {
    HirKind::Empty | HirKind::Look(_) | HirKind::Literal(_) | HirKind::Class(_) => true,
    HirKind::Repetition(_) => false,
    HirKind::Capture(c) => simple(&c.sub),
    HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().all(simple),
  }
}

fn reference(c: &Case) -> Option<Reference> {
  let parse = |e: &str| ParserBuilder::new().utf8(c.mode.utf8()).build().parse(e).ok();
  let hirs: Vec<Hir> = c.exprs.iter().filter_map(|(e, _)| parse(e)).collect();
  let w: usize = hirs.iter().map(weight).sum();
  if w <= WEIGHT {
    if let Some(r) = Reference::new(c, STATES, ATOMS) {
      return Some(r);
    }
  }
  (w <= WIDE_WEIGHT && hirs.iter().all(simple)).then(|| Reference::new(c, WIDE_STATES, WIDE_ATOMS)).flatten()
}

fn small(c: &Case) -> bool {
  reference(c).is_some()
}

fn do_jobs(g: &Group, pools: &[ThreadPool]) -> Vec<Made> {
  let mut made: Vec<Option<Made>> = g.jobs.iter().map(|_| None).collect();
  let mut all = || {
    if g.scope {
      rayon::scope(|s| {
        for (j, slot) in g.jobs.iter().zip(&mut made) {
          s.spawn(|_| *slot = Some(Built::new(&j.case, j.par)));
        }
      });
    } else {
      for (j, slot) in g.jobs.iter().zip(&mut made) {
        *slot = Some(Built::new(&j.case, j.par));
      }
    }
  };
  match g.pool {
    Some(p) => pools[p].install(all),
    None => all(),
  }
  made.into_iter().map(|m| m.expect("HARNESS job not done")).collect()
}

fn work(plan: &Plan) -> Done {
  let pools: Vec<ThreadPool> = plan
    .pools
    .iter()
    .map(|n| ThreadPoolBuilder::new().num_threads(*n).build().expect("HARNESS pool"))
    .collect();
  let pools = Arc::new(pools);
  let shared = plan.shared.as_ref().map(|c| Built::new(c, Some(false)));
  let common = &shared;
  let (made, matches) = std::thread::scope(|s| {
    let threads: Vec<_> = plan
      .groups
      .iter()
      .map(|g| {
        let pools = pools.clone();
        s.spawn(move || {
          let made = do_jobs(g, &pools);
          let mut found = Vec::new();
          if let (Some(c), Some(Ok(m))) = (&plan.shared, common) {
            found.extend(c.texts.iter().map(|t| m.is_match(t)));
          }
          (made, found)
        })
      })
      .collect();
    threads
      .into_iter()
      .map(|t| t.join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
      .unzip()
  });
  if plan.entropy % 2 == 0 {
    std::mem::forget(pools);
  }
  Done { made, shared, matches }
}

fn check(plan: &Plan, d: Done, ctx: &mut Ctx) -> Result<(), Viol> {
  let reference = |c: &Case| reference(c).expect("HARNESS reference");
  let mut n = 0;
  for (g, made) in plan.groups.iter().zip(d.made) {
    for (j, m) in g.jobs.iter().zip(made) {
      n += 1;
      ctx.count(
        match (&j.par, &m) {
          (_, Err(_)) => "probe.rejected_expressions",
          (Some(true), _) => "probe.parallel",
          (Some(false), _) => "probe.serial",
          (None, _) => "probe.automatic",
        },
        1,
      );
      judge(&j.case, reference(&j.case), m, ctx)?;
    }
  }
  if let (Some(c), Some(m)) = (&plan.shared, d.shared) {
    if let Ok(m) = &m {
      let alone: Vec<Option<usize>> = c.texts.iter().map(|t| m.is_match(t)).collect();
      for (t, found) in d.matches.iter().enumerate() {
        ensure!(*found == alone, "shared", "thread {t} found {found:?} in {:?}, alone {alone:?}", c.texts);
      }
      ctx.count("probe.shared_matches", (d.matches.len() * alone.len()) as u64);
    }
    judge(c, reference(c), m, ctx)?;
  }
  ctx.nontrivial = n > 0;
  Ok(())
}

fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Viol> {
  let ok = plan.groups.len() <= 6
    && plan.pools.len() <= 4
    && plan.pools.iter().all(|n| (1..=8).contains(n))
    && (1..=8).contains(&plan.cpus)
    && plan.groups.iter().all(|g| g.pool.is_none_or(|p| p < plan.pools.len()));
  let cases: Vec<&Case> = plan.groups.iter().flat_map(|g| g.jobs.iter().map(|j| &j.case)).chain(&plan.shared).collect();
  if !ok || !cases.into_iter().all(small) {
    return Ok(());
  }
  let m = Machine {
    sched: &plan.sched,
    entropy: plan.entropy,
    cpus: plan.cpus,
    max_steps: 400_000_000,
  };
  simulate(&m, Os::default, ctx, || work(plan), |d, ctx| check(plan, d, ctx))
}

fn gen(r: &mut Rng, deep: bool) -> Plan {
  let n = r.range(0, 2);
  let pools: Vec<usize> = (0..n).map(|_| *r.pick(&[1, 2, 2, 3, 3, 4, 7])).collect();
  let case = |r: &mut Rng| loop {
    let exprs = r.range(1, if deep { 7 } else { 5 });
    let wide = r.chance(1, 25);
    let mut c = if wide { gen_wide(r, 100, true) } else { gen_case(r, exprs, 2) };
    c.texts.truncate(6);
    c.feed.truncate(1);
    if small(&c) {
      return c;
    }
  };
  let threads = *r.pick(&[1, 1, 2, 2, 3, 4]);
  let same = r.chance(1, 4).then(|| case(r));
  let groups = (0..threads)
    .map(|_| Group {
      pool: (n > 0 && r.chance(3, 4)).then(|| r.below(n)),
      scope: r.chance(1, 4),
      jobs: (0..r.range(1, if threads == 1 { 3 } else { 2 }))
        .map(|_| Job {
          case: same.clone().unwrap_or_else(|| case(r)),
          par: *r.pick(&[Some(true), Some(true), Some(true), None, Some(false)]),
        })
        .collect(),
    })
    .collect();
  let length = *r.pick(&[20_000, 100_000, 400_000]);
  Plan {
    entropy: r.next(),
    cpus: *r.pick(&[1, 2, 2, 2, 3, 4]),
    pools,
    groups,
    shared: r.chance(1, 3).then(|| case(r)),
    sched: Sched::gen(r, length, 16),
  }
}

pub fn props() -> Vec<Prop> {
  vec![Prop::new("X02", 2000, 100_000, gen, run)
    .rule("one run = up to 4 threads with up to 3 jobs each, which build matchers of random expressions in parallel, serially or automatically, outside of pools, in pools of 1 to 7 workers, or as tasks of pools, on 1 to 4 processors, and one matcher that all threads use; one schedule (random walk or random priorities over atomic operations, accesses to memory, waits and thread starts); each matcher is compared with the reference on texts, single symbols and all pairs of states; non-trivial = something was built and threads were switched")
    .time(TIME)
    .concrete(|v| {
      concrete(v, |v| {
        if let Ok(p) = serde_json::from_value::<Plan>(v["plan"].clone()) {
          let _ = run(&p, &mut Ctx::new(false));
        }
      })
    })
    .real(&[
      "laps_regex, rayon, rayon-core, crossbeam-deque, crossbeam-epoch (instrumented: every access to shared memory is a point of the scheduler)",
      "std::thread, std::sync, on real threads of which only one runs at a time",
    ])
    .stub(&["the scheduler of the kernel (futex, sched_yield, thread start, join and end)", "getrandom: hash seeds follow from the seed", "sched_getaffinity: 1 to 4 processors"])
    .assumptions(&["executions are sequentially consistent", "the syntax tree of regex-syntax is right", "expressions whose reference has at most 30 states and 30 classes of symbols, or simple ones of at most 110 states and 130 classes"])]
}
