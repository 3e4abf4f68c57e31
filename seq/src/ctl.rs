//! Exhaustive enumeration of the executions of deterministic scenarios.
//!
//! A scenario asks `choose(n)` wherever more than one thing can happen (which operation comes next,
//! what the environment answers); every combination of answers is run, depth first, on all cores.
//! An execution is identified by its list of answers.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Run {
    prefix: Vec<u8>,
    taken: Vec<(u8, u8)>,
    steps: u64,
    hash: DefaultHasher,
    trace: Option<Vec<String>>,
    diverged: bool,
    panic_at: Option<String>,
    states: u64,
    live: bool,
}

thread_local! {
    static RUN: RefCell<Run> = RefCell::default();
}

/// One of `n` continuations; each is explored.
pub fn choose(n: usize) -> usize {
    assert!((1..=255).contains(&n));
    if n == 1 {
        return 0;
    }
    RUN.with_borrow_mut(|r| {
        let i = r.taken.len();
        let mut c = r.prefix.get(i).copied().unwrap_or(0);
        if c as usize >= n {
            r.diverged = true;
            c = 0;
        }
        r.taken.push((c, n as u8));
        c as usize
    })
}

pub fn pick<T: Clone>(of: &[T]) -> T {
    of[choose(of.len())].clone()
}

/// One call of the code under test.
pub fn step() {
    RUN.with_borrow_mut(|r| r.steps += 1);
}

/// States of a reference model that were visited.
pub fn states(n: u64) {
    RUN.with_borrow_mut(|r| r.states += n);
}

/// Something that was observed; distinct observations are counted, and shown in a replay.
pub fn saw(what: impl Hash + std::fmt::Debug) {
    RUN.with_borrow_mut(|r| {
        what.hash(&mut r.hash);
        if let Some(t) = &mut r.trace {
            t.push(format!("{what:?}"));
        }
    });
}

pub fn note(what: impl FnOnce() -> String) {
    RUN.with_borrow_mut(|r| {
        if let Some(t) = &mut r.trace {
            t.push(what());
        }
    });
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub sig: &'static str,
    pub what: String,
}

#[macro_export]
macro_rules! bad {
    ($sig:expr, $($t:tt)*) => {
        return Err($crate::ctl::Bad { sig: $sig, what: format!($($t)*) })
    };
}

pub type Res = Result<(), Bad>;

pub trait Scenario: Sync + Send {
    fn describe(&self) -> String;
    fn run(&self) -> Res;
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub sig: &'static str,
    pub what: String,
    pub choices: Vec<u8>,
    pub count: u64,
}

pub struct One {
    pub result: Res,
    pub taken: Vec<(u8, u8)>,
    pub steps: u64,
    pub states: u64,
    pub hash: u64,
    pub trace: Vec<String>,
    pub diverged: bool,
}

/// Where a panic happened; the code under test must not panic.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let live = RUN.try_with(|r| {
            r.try_borrow_mut().map(|mut r| {
                if r.live {
                    let msg = info
                        .payload()
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    r.panic_at = Some(format!("{msg} at {}", info.location().map_or(String::new(), |l| l.to_string())));
                }
                r.live
            })
        });
        if !matches!(live, Ok(Ok(true))) {
            old(info);
        }
    }));
}

pub fn run_once(s: &dyn Scenario, prefix: Vec<u8>, trace: bool) -> One {
    RUN.with_borrow_mut(|r| {
        *r = Run { prefix, trace: trace.then(Vec::new), live: true, ..Run::default() };
    });
    let result = catch_unwind(AssertUnwindSafe(|| s.run()));
    RUN.with_borrow_mut(|r| {
        r.live = false;
        let result = result.unwrap_or_else(|_| {
            Err(Bad { sig: "panic", what: format!("panic: {}", r.panic_at.take().unwrap_or_default()) })
        });
        One {
            result,
            taken: std::mem::take(&mut r.taken),
            steps: r.steps,
            states: r.states,
            hash: r.hash.finish(),
            trace: r.trace.take().unwrap_or_default(),
            diverged: r.diverged,
        }
    })
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub scenarios: u64,
    pub executions: u64,
    pub nodes: u64,
    pub steps: u64,
    pub deepest: usize,
    pub outcomes: u64,
    pub found: Vec<Found>,
    pub capped: bool,
    pub gave_up: bool,
    pub diverged: u64,
    pub samples: Vec<String>,
    pub wall: f64,
}

struct Shared<'a> {
    scs: &'a [Box<dyn Scenario>],
    queue: Mutex<Vec<(usize, Vec<u8>)>>,
    wake: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    gave_up: AtomicBool,
    hungry: AtomicBool,
    found: Mutex<BTreeMap<(&'static str, usize), Found>>,
    ticks: Vec<AtomicU64>,
}

pub fn explore(scs: &[Box<dyn Scenario>], workers: usize, limit: Duration, on_stuck: &(dyn Fn(&str, &[u8], bool) + Sync)) -> Report {
    let start = Instant::now();
    let sh = Shared {
        scs,
        queue: Mutex::new((0..scs.len()).rev().map(|i| (i, vec![])).collect()),
        wake: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        gave_up: AtomicBool::new(false),
        hungry: AtomicBool::new(false),
        found: Mutex::default(),
        ticks: (0..workers).map(|_| AtomicU64::new(0)).collect(),
    };
    let current: Vec<Mutex<(usize, Vec<u8>)>> = (0..workers).map(|_| Mutex::default()).collect();
    let done = AtomicUsize::new(0);
    let total = Mutex::new((Report::default(), HashSet::<u64>::new()));
    std::thread::scope(|t| {
        for w in 0..workers {
            let (sh, current, done, total) = (&sh, &current, &done, &total);
            t.spawn(move || {
                crate::crash::watch(w);
                let (mut r, mut seen) = (Report::default(), HashSet::new());
                while let Some((i, prefix)) = next_task(sh, workers) {
                    subtree(sh, w, i, prefix, &current[w], &mut r, &mut seen, start, limit);
                }
                sh.ticks[w].store(u64::MAX, Relaxed);
                let mut g = total.lock().unwrap();
                let (t, s) = &mut *g;
                t.executions += r.executions;
                t.nodes += r.nodes;
                t.steps += r.steps;
                t.diverged += r.diverged;
                t.deepest = t.deepest.max(r.deepest);
                t.capped |= r.capped;
                t.samples.extend(r.samples);
                s.extend(seen);
                drop(g);
                done.fetch_add(1, Relaxed);
            });
        }
        // an execution that does not come back
        let mut last = vec![(0u64, Instant::now()); workers];
        while done.load(Relaxed) < workers {
            std::thread::sleep(Duration::from_millis(20));
            if let Some(w) = crate::crash::crashed() {
                let c = current[w].lock().unwrap().clone();
                on_stuck(&scs[c.0].describe(), &c.1, true);
            }
            for w in 0..workers {
                let v = sh.ticks[w].load(Relaxed);
                if v != last[w].0 || v == u64::MAX || v == 0 {
                    last[w] = (v, Instant::now());
                } else if last[w].1.elapsed() > Duration::from_secs(60) {
                    let c = current[w].lock().unwrap().clone();
                    on_stuck(&scs[c.0].describe(), &c.1, false);
                    last[w].1 = Instant::now();
                }
            }
        }
    });
    let (mut r, seen) = total.into_inner().unwrap();
    r.outcomes = seen.len() as u64;
    r.scenarios = scs.len() as u64;
    r.gave_up = sh.gave_up.load(Relaxed);
    r.found = sh.found.into_inner().unwrap().into_values().collect();
    r.found.sort_by_key(|f| (f.choices.len(), f.scenario.len()));
    r.samples.sort();
    r.samples.dedup();
    r.samples.truncate(6);
    r.wall = start.elapsed().as_secs_f64();
    r
}

fn next_task(sh: &Shared<'_>, workers: usize) -> Option<(usize, Vec<u8>)> {
    let mut q = sh.queue.lock().unwrap();
    loop {
        if sh.stop.load(Relaxed) {
            sh.wake.notify_all();
            return None;
        }
        if let Some(t) = q.pop() {
            sh.hungry.store(q.len() < workers, Relaxed);
            return Some(t);
        }
        sh.hungry.store(true, Relaxed);
        if sh.idle.fetch_add(1, Relaxed) + 1 == workers {
            sh.stop.store(true, Relaxed);
            sh.idle.fetch_sub(1, Relaxed);
            sh.wake.notify_all();
            return None;
        }
        q = sh.wake.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
        sh.idle.fetch_sub(1, Relaxed);
    }
}

#[expect(clippy::too_many_arguments)]
fn subtree(
    sh: &Shared<'_>, w: usize, i: usize, mut prefix: Vec<u8>, cur: &Mutex<(usize, Vec<u8>)>,
    r: &mut Report, seen: &mut HashSet<u64>, start: Instant, limit: Duration,
) {
    let s = &*sh.scs[i];
    let mut base = prefix.len();
    let mut fresh = 0usize.max(base.saturating_sub(1));
    loop {
        if r.executions & 0xff == 0 && start.elapsed() > limit {
            r.capped = true;
            sh.stop.store(true, Relaxed);
            sh.wake.notify_all();
        }
        if sh.stop.load(Relaxed) {
            return;
        }
        *cur.lock().unwrap() = (i, prefix.clone());
        sh.ticks[w].fetch_add(1, Relaxed);
        let one = run_once(s, std::mem::take(&mut prefix), false);
        let mut taken = one.taken;
        r.executions += 1;
        r.steps += one.steps;
        r.nodes += one.states + (taken.len() - fresh.min(taken.len())) as u64 + u64::from(taken.is_empty());
        r.deepest = r.deepest.max(taken.len());
        r.diverged += u64::from(one.diverged);
        seen.insert(one.hash);
        if r.samples.len() < 2 {
            let c: Vec<u8> = taken.iter().map(|t| t.0).collect();
            r.samples.push(format!("{} choices {c:?}", s.describe()));
        }
        if let Err(b) = one.result {
            let choices: Vec<u8> = taken.iter().map(|t| t.0).collect();
            let mut f = sh.found.lock().unwrap();
            let e = f.entry((b.sig, i)).or_insert_with(|| Found {
                scenario: s.describe(), sig: b.sig, what: b.what.clone(), choices: choices.clone(), count: 0,
            });
            e.count += 1;
            if (choices.len(), &choices) < (e.choices.len(), &e.choices) {
                e.what = b.what;
                e.choices = choices;
            }
            let many = f.values().map(|f| f.count).sum::<u64>() > 20_000 || f.len() > 300;
            drop(f);
            if many {
                sh.gave_up.store(true, Relaxed);
                sh.stop.store(true, Relaxed);
                sh.wake.notify_all();
            }
        }
        if sh.hungry.load(Relaxed) {
            // give away the alternatives closest to the root
            if let Some(at) = (base..taken.len()).find(|&k| taken[k].0 + 1 < taken[k].1) {
                let head: Vec<u8> = taken[..at].iter().map(|t| t.0).collect();
                let mut q = sh.queue.lock().unwrap();
                for c in (taken[at].0 + 1..taken[at].1).rev() {
                    let mut p = head.clone();
                    p.push(c);
                    q.push((i, p));
                }
                if q.len() >= 2 * sh.ticks.len() {
                    sh.hungry.store(false, Relaxed);
                }
                drop(q);
                sh.wake.notify_all();
                base = at + 1;
            }
        }
        while taken.len() > base && taken.last().is_some_and(|t| t.0 + 1 >= t.1) {
            taken.pop();
        }
        if taken.len() <= base {
            return;
        }
        fresh = taken.len() - 1;
        prefix = taken.iter().map(|t| t.0).collect();
        *prefix.last_mut().unwrap() += 1;
    }
}
