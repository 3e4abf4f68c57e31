//! Exhaustive enumeration of the executions of many scenarios on all cores.

use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::{Config, End, RunResult, Setup};

/// One closed system to explore.
pub trait Scenario: Send + Sync {
    fn name(&self) -> String;
    fn config(&self) -> Config;
    /// Runs one execution: calls `run` once with a builder, then judges it.
    fn execute(&self, run: &mut dyn FnMut(&Config, &mut dyn FnMut(&mut Setup)) -> RunResult) -> Verdict;
}

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// hash of what the execution let an observer see
    pub outcome: u64,
    /// the execution exercised what the property is about
    pub nontrivial: bool,
    /// (property, signature, description)
    pub violations: Vec<(String, String, String)>,
    /// the execution could not be judged (a failure of the harness, not of the code)
    pub error: Option<String>,
    pub observed: String,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub property: String,
    pub signature: String,
    pub what: String,
    pub choices: Vec<u8>,
    pub cost: u32,
    pub count: u64,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub points: u64,
    pub decisions: u64,
    pub nontrivial: u64,
    pub by_cost: [u64; 8],
    pub max_points: u64,
    pub abandoned: u64,
    /// distinct nodes of the tree of decisions
    pub nodes: u64,
}

pub struct Report {
    pub stats: Stats,
    /// distinct (scenario, outcome) pairs
    pub outcomes: u64,
    pub scenarios: u64,
    pub scenarios_done: u64,
    pub found: Vec<Found>,
    pub engine_errors: Vec<String>,
    /// so many violations that the rest was not explored
    pub gave_up: bool,
    /// the time limit stopped the exploration
    pub capped: bool,
    pub samples: Vec<String>,
    pub wall: f64,
}

struct Job {
    sc: usize,
    prefix: Vec<u8>,
    sig: Option<u64>,
    cost: u32,
}

struct Shared<'a> {
    scs: &'a [Box<dyn Scenario>],
    q: Mutex<Vec<Job>>,
    cv: Condvar,
    idle: AtomicUsize,
    workers: usize,
    stop: AtomicBool,
    next_sc: AtomicUsize,
    outstanding: Vec<AtomicU64>,
    done_scs: AtomicU64,
    capped: AtomicBool,
    deadline: Instant,
    acc: Mutex<Acc>,
    /// start of the current execution of each worker in ms (0: none)
    busy: Vec<AtomicU64>,
    now_running: Vec<Mutex<(usize, Vec<u8>)>>,
    flush_found: usize,
    max_found: usize,
    gave_up: AtomicBool,
    abandoned: AtomicU64,
    start: Instant,
}

#[derive(Default)]
struct Acc {
    stats: Stats,
    outcomes: HashSet<(usize, u64)>,
    found: HashMap<(String, String, String), Found>,
    errors: Vec<String>,
    samples: Vec<String>,
}

impl Acc {
    fn merge(&mut self, o: Acc) {
        let s = &mut self.stats;
        s.executions += o.stats.executions;
        s.points += o.stats.points;
        s.decisions += o.stats.decisions;
        s.nontrivial += o.stats.nontrivial;
        s.abandoned += o.stats.abandoned;
        s.nodes += o.stats.nodes;
        for i in 0..8 {
            s.by_cost[i] += o.stats.by_cost[i];
        }
        s.max_points = s.max_points.max(o.stats.max_points);
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.found {
            match self.found.get_mut(&k) {
                None => {
                    self.found.insert(k, v);
                }
                Some(f) => {
                    let count = f.count + v.count;
                    if (v.cost, v.choices.len(), &v.choices) < (f.cost, f.choices.len(), &f.choices) {
                        *f = v;
                    }
                    f.count = count;
                }
            }
        }
        self.errors.extend(o.errors);
        if self.samples.len() < 24 {
            self.samples.extend(o.samples);
        }
    }
}

fn run_one(sc: &dyn Scenario, job: &Job, trace: bool) -> (RunResult, Verdict) {
    let mut out = None;
    let v = sc.execute(&mut |cfg, build| {
        let mut cfg = cfg.clone();
        cfg.trace = trace;
        let r = crate::run(&cfg, &job.prefix, job.sig, |s| build(s));
        let copy = RunResult {
            end: r.end.clone(),
            decs: r.decs.clone(),
            steps: r.steps,
            sig: r.sig,
            trace: r.trace.clone(),
            panics: r.panics.clone(),
        };
        out = Some(r);
        copy
    });
    (out.expect("scenario did not run"), v)
}

/// Replays one decision list (followed by default decisions).
pub fn replay(sc: &dyn Scenario, choices: &[u8], trace: bool) -> (RunResult, Verdict) {
    let job = Job {
        sc: 0,
        prefix: choices.to_vec(),
        sig: None,
        cost: 0,
    };
    run_one(sc, &job, trace)
}

fn worker(sh: &Shared<'_>, w: usize) -> bool {
    // returns true if this OS thread must be replaced
    crate::crash::watch(w);
    let mut local: Vec<Job> = Vec::new();
    let mut acc = Acc::default();
    let mut n = 0u64;
    let poisoned = loop {
        if sh.stop.load(Ordering::Relaxed) {
            break false;
        }
        let job = match local.pop() {
            Some(j) => j,
            None => {
                let mut q = sh.q.lock().unwrap();
                loop {
                    if let Some(j) = q.pop() {
                        break j;
                    }
                    let i = sh.next_sc.fetch_add(1, Ordering::SeqCst);
                    if i < sh.scs.len() {
                        sh.outstanding[i].fetch_add(1, Ordering::SeqCst);
                        break Job {
                            sc: i,
                            prefix: vec![],
                            sig: None,
                            cost: 0,
                        };
                    }
                    let idle = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == sh.workers {
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                    }
                    if sh.stop.load(Ordering::SeqCst) {
                        drop(q);
                        sh.acc.lock().unwrap().merge(acc);
                        return false;
                    }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    if sh.stop.load(Ordering::SeqCst) {
                        drop(q);
                        sh.acc.lock().unwrap().merge(acc);
                        return false;
                    }
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            }
        };
        n += 1;
        let sc = &*sh.scs[job.sc];
        {
            let mut g = sh.now_running[w].lock().unwrap();
            g.0 = job.sc;
            g.1.clone_from(&job.prefix);
        }
        if n % 64 == 0 && Instant::now() > sh.deadline {
            sh.capped.store(true, Ordering::SeqCst);
            sh.stop.store(true, Ordering::SeqCst);
            break false;
        }
        let cfg = sc.config();
        sh.busy[w].store(sh.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        let (r, v) = run_one(sc, &job, false);
        sh.busy[w].store(0, Ordering::Relaxed);
        acc.stats.executions += 1;
        acc.stats.points += r.steps;
        acc.stats.decisions += r.decs.len() as u64;
        acc.stats.nodes += (r.decs.len() - job.prefix.len().min(r.decs.len())) as u64 + 1;
        acc.stats.max_points = acc.stats.max_points.max(r.steps);
        acc.stats.by_cost[(job.cost as usize).min(7)] += 1;
        if v.nontrivial {
            acc.stats.nontrivial += 1;
        }
        acc.outcomes.insert((job.sc, v.outcome));
        if acc.samples.len() < 2 && v.nontrivial && job.cost > 0 {
            acc.samples.push(format!(
                "{} decisions={:?} -> {}",
                sc.name(),
                r.decs.iter().map(|d| d.chosen).collect::<Vec<_>>(),
                v.observed
            ));
        }
        if let End::Divergence(d) = &r.end {
            acc.errors.push(format!("{}: {d}", sc.name()));
        }
        if let Some(e) = &v.error {
            acc.errors.push(format!("{}: {e}", sc.name()));
        }
        if acc.errors.len() > 20 {
            sh.stop.store(true, Ordering::SeqCst);
        }
        if r.end != End::Finished {
            acc.stats.abandoned += 1;
            if sh.abandoned.fetch_add(1, Ordering::Relaxed) > MAX_ABANDONED {
                sh.gave_up.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
            }
        }
        for (p, s, what) in v.violations {
            let key = (sc.name(), p.clone(), s.clone());
            let f = Found {
                scenario: sc.name(),
                property: p,
                signature: s,
                what,
                choices: r.decs.iter().map(|d| d.chosen).collect(),
                cost: job.cost,
                count: 1,
            };
            match acc.found.get_mut(&key) {
                None => {
                    acc.found.insert(key, f);
                }
                Some(g) => {
                    let c = g.count + 1;
                    if (f.cost, f.choices.len(), &f.choices) < (g.cost, g.choices.len(), &g.choices) {
                        *g = f;
                    }
                    g.count = c;
                }
            }
        }
        // the alternatives this execution opened
        let mut children = Vec::new();
        if !matches!(r.end, End::Divergence(_)) {
            for i in job.prefix.len()..r.decs.len() {
                let d = r.decs[i];
                for alt in 1..d.n {
                    let c = job.cost + ((d.cost >> alt) & 1);
                    if c > cfg.bound {
                        continue;
                    }
                    let mut p: Vec<u8> = r.decs[..i].iter().map(|d| d.chosen).collect();
                    p.push(alt);
                    children.push(Job {
                        sc: job.sc,
                        prefix: p,
                        sig: Some(d.sig),
                        cost: c,
                    });
                }
            }
        }
        sh.outstanding[job.sc].fetch_add(children.len() as u64, Ordering::SeqCst);
        // depth first, cheapest first
        local.extend(children.into_iter().rev());
        if sh.outstanding[job.sc].fetch_sub(1, Ordering::SeqCst) == 1 {
            sh.done_scs.fetch_add(1, Ordering::SeqCst);
        }
        if sh.idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
            let mut q = sh.q.lock().unwrap();
            if q.len() < sh.workers {
                let k = local.len() / 2;
                q.extend(local.drain(..k));
                sh.cv.notify_all();
            }
        }
        if crate::poisoned() {
            break true;
        }
        if acc.outcomes.len() > 4096 || acc.found.len() > sh.flush_found {
            let mut g = sh.acc.lock().unwrap();
            g.merge(std::mem::take(&mut acc));
            if g.found.len() > sh.max_found {
                // enough evidence
                sh.gave_up.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
            }
        }
    };
    if !local.is_empty() {
        let mut q = sh.q.lock().unwrap();
        q.extend(local);
        sh.cv.notify_all();
    }
    sh.acc.lock().unwrap().merge(acc);
    poisoned
}

/// An execution that takes this long does not reach scheduling points any more
/// (a normal one takes well under a millisecond).
const STUCK_MS: u64 = 30_000;

/// Abandoned executions leak what they own.
const MAX_ABANDONED: u64 = 20_000;

/// `on_stuck(scenario, decisions)` is called (and should end the process) when an execution runs
/// forever without reaching a scheduling point, or crashes (the last argument).
pub fn explore(
    scs: &[Box<dyn Scenario>],
    workers: usize,
    limit: Duration,
    on_stuck: &(dyn Fn(&str, &[u8], bool) + Sync),
) -> Report {
    let start = Instant::now();
    let sh = Shared {
        scs,
        q: Mutex::new(Vec::new()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        workers,
        stop: AtomicBool::new(false),
        next_sc: AtomicUsize::new(0),
        outstanding: (0..scs.len()).map(|_| AtomicU64::new(0)).collect(),
        done_scs: AtomicU64::new(0),
        capped: AtomicBool::new(false),
        deadline: start + limit,
        acc: Mutex::new(Acc::default()),
        start,
        busy: (0..workers).map(|_| AtomicU64::new(0)).collect(),
        now_running: (0..workers).map(|_| Mutex::new((0, Vec::new()))).collect(),
        flush_found: 16,
        max_found: 300,
        gave_up: AtomicBool::new(false),
        abandoned: AtomicU64::new(0),
    };
    let hb_stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        let shr = &sh;
        let stopr = &hb_stop;
        // watchdog: an execution that never reaches a scheduling point again cannot be judged
        s.spawn(move || {
            while !stopr.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if let Some(w) = crate::crash::crashed() {
                    let (i, p) = shr.now_running[w].lock().unwrap().clone();
                    on_stuck(&shr.scs[i].name(), &p, true);
                    std::process::exit(3);
                }
                for w in 0..shr.workers {
                    let b = shr.busy[w].load(Ordering::Relaxed);
                    if b != 0 && shr.start.elapsed().as_millis() as u64 > b + STUCK_MS {
                        let (i, p) = shr.now_running[w].lock().unwrap().clone();
                        on_stuck(&shr.scs[i].name(), &p, false);
                        std::process::exit(3);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                s.spawn(move || loop {
                    let replace = std::thread::scope(|s2| {
                        s2.spawn(|| worker(shr, w)).join().unwrap_or_else(|_| {
                            shr.acc.lock().unwrap().errors.push("a worker panicked".into());
                            shr.stop.store(true, Ordering::SeqCst);
                            false
                        })
                    });
                    if !replace {
                        break;
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        hb_stop.store(true, Ordering::SeqCst);
    });
    let acc = sh.acc.into_inner().unwrap();
    let mut found: Vec<Found> = acc.found.into_values().collect();
    found.sort_by(|a, b| {
        (a.cost, a.choices.len(), &a.scenario, &a.signature).cmp(&(b.cost, b.choices.len(), &b.scenario, &b.signature))
    });
    Report {
        outcomes: acc.outcomes.len() as u64,
        stats: acc.stats,
        scenarios: scs.len() as u64,
        scenarios_done: sh.done_scs.load(Ordering::SeqCst),
        found,
        engine_errors: acc.errors,
        capped: sh.capped.load(Ordering::SeqCst),
        gave_up: sh.gave_up.load(Ordering::SeqCst),
        samples: acc.samples,
        wall: start.elapsed().as_secs_f64(),
    }
}
