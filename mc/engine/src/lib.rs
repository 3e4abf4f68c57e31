//! mcx: a stateless model checker for code that is compiled against shimmed synchronisation.
//!
//! Virtual threads are stackful coroutines on one OS thread, so exactly one of them runs at a
//! time and the explorer owns every switch. A *decision* is recorded wherever more than one thing
//! can happen next (which thread runs, whether a timer or an environment event comes first, a data
//! choice of the environment). Option 0 is always the default; every other option has a cost
//! (1 for a preemption or a departure from the default environment answer, 0 for a free choice
//! when the running thread blocks). `explore` enumerates *all* executions whose total cost is at
//! most the bound; each execution is identified by its decision list and can be replayed.
//!
//! Outside an exploration every entry point is a no-op, so the shims behave like ordinary
//! (single-threaded) code during set-up and tear-down.

use std::cell::{Cell, RefCell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub mod atomic;
pub mod crash;
pub mod explore;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Kind {
    Lock = 0,
    RwRead,
    RwWrite,
    CvWait,
    CvNotify,
    AtomicLoad,
    AtomicStore,
    AtomicRmw,
    Notify,
    NotifyPoll,
    Chan,
    ChanPoll,
    Cancel,
    IsCancelled,
    Park,
    Select,
    Storage,
    Env,
    Data,
    User,
    Start,
    Weak,
}

pub const ALL: u32 = u32::MAX;
pub const fn bit(k: Kind) -> u32 {
    1 << (k as u32)
}

#[derive(Clone, Debug)]
pub struct Config {
    /// maximum total cost of the decisions of one execution
    pub bound: u32,
    /// maximum number of scheduling points of one execution
    pub horizon: u64,
    /// which kinds of operation are scheduling points
    pub mask: u32,
    /// model store buffering of non-SeqCst atomic stores
    pub weak: bool,
    /// maximum number of timer firings of one execution
    pub timer_limit: u32,
    /// offer timers before anything else may happen (cost 1)
    pub early_timers: bool,
    /// offer environment events early (cost 1)
    pub early_events: bool,
    pub trace: bool,
}

impl Default for Config {
    fn default() -> Self {
        Self {
            bound: 1,
            horizon: 20_000,
            mask: ALL,
            weak: false,
            timer_limit: 12,
            early_timers: false,
            early_events: true,
            trace: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// every virtual thread finished
    Finished,
    /// nothing can happen any more, and these threads have not finished
    Deadlock(Vec<String>),
    /// the scheduling point or timer limit was hit
    Horizon(&'static str),
    /// the execution did not follow the recorded decisions: an engine error, never a verdict
    Divergence(String),
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub chosen: u8,
    pub n: u8,
    /// bit i set: option i costs 1
    pub cost: u32,
    pub kind: Kind,
    pub tid: u8,
    /// hash of everything decided before this decision and of its options
    pub sig: u64,
}

pub struct RunResult {
    pub end: End,
    pub decs: Vec<Dec>,
    pub steps: u64,
    pub sig: u64,
    pub trace: Vec<String>,
    pub panics: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

type Co = Coroutine<(), (), (), DefaultStack>;

struct VThread {
    name: &'static str,
    co: Option<Co>,
    st: St,
    block_kind: Kind,
    cond: Option<*const dyn Fn() -> bool>,
    timer: bool,
    timer_fired: bool,
    yielder: *const Yielder<(), ()>,
    sb: Vec<atomic::Pending>,
}

struct Event {
    target: usize,
    f: Box<dyn FnOnce()>,
    label: &'static str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Idle {
    /// something changed: look again
    Retry,
    /// give up: this is a deadlock
    Stop,
}

struct Exec {
    cfg: Config,
    threads: Vec<VThread>,
    /// running virtual thread; usize::MAX while in the main loop
    cur: usize,
    next: usize,
    prefix: Vec<u8>,
    decs: Vec<Dec>,
    sig: u64,
    expect_sig: Option<u64>,
    steps: u64,
    timers: u32,
    atomic_depth: u32,
    events: Vec<Event>,
    idle: Option<Box<dyn FnMut(&[(&'static str, Kind)]) -> Idle>>,
    stop: Option<End>,
    trace: Vec<String>,
    panics: Vec<String>,
    timer_flag: bool,
    quiescent: bool,
}

thread_local! {
    static CUR: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static POISONED: Cell<bool> = const { Cell::new(false) };
}

#[inline(always)]
fn exec() -> Option<&'static mut Exec> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        // SAFETY: set by `run` on this OS thread for the duration of the run; one coroutine at a
        // time, references are never held across a switch.
        Some(unsafe { &mut *p })
    }
}

/// True while called from a virtual thread of a running exploration.
#[inline(always)]
pub fn active() -> bool {
    exec().is_some_and(|e| e.cur != usize::MAX)
}

/// Index of the running virtual thread plus one; 0 outside of an exploration.
#[inline(always)]
pub fn ctx_index() -> usize {
    match exec() {
        Some(e) if e.cur != usize::MAX => e.cur + 1,
        _ => 0,
    }
}

pub fn current_name() -> &'static str {
    match exec() {
        Some(e) if e.cur != usize::MAX => e.threads[e.cur].name,
        _ => "env",
    }
}

/// Total number of scheduling points so far: a logical clock.
pub fn now() -> u64 {
    exec().map_or(0, |e| e.steps)
}

pub fn tracing() -> bool {
    exec().is_some_and(|e| e.cfg.trace)
}

pub fn note(f: impl FnOnce() -> String) {
    if let Some(e) = exec() {
        if e.cfg.trace {
            let s = format!("      {} | {}", current_name(), f());
            e.trace.push(s);
        }
    }
}

pub struct AtomicSection(bool);
impl Drop for AtomicSection {
    fn drop(&mut self) {
        if self.0 {
            if let Some(e) = exec() {
                e.atomic_depth -= 1;
            }
        }
    }
}
/// No switch happens until the guard is dropped.
pub fn atomic_section() -> AtomicSection {
    match exec() {
        Some(e) => {
            e.atomic_depth += 1;
            AtomicSection(true)
        }
        None => AtomicSection(false),
    }
}

impl Exec {
    fn mix(&mut self, a: u64) {
        self.sig = (self.sig ^ a).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }

    /// Takes the decision: from the prefix while replaying, otherwise option 0.
    fn decide(&mut self, kind: Kind, n: usize, cost: u32) -> usize {
        debug_assert!(n >= 1 && n <= 32);
        if n == 1 {
            return 0;
        }
        let i = self.decs.len();
        self.mix(((kind as u64) << 32) | ((self.cur as u64 & 0xff) << 16) | n as u64);
        let chosen = if i < self.prefix.len() {
            let c = self.prefix[i] as usize;
            if c >= n {
                self.stop.get_or_insert(End::Divergence(format!(
                    "decision {i}: recorded choice {c} but only {n} options ({kind:?})"
                )));
                0
            } else {
                c
            }
        } else {
            0
        };
        if i + 1 == self.prefix.len() {
            if let Some(want) = self.expect_sig {
                if want != self.sig {
                    self.stop.get_or_insert(End::Divergence(format!(
                        "decision {i}: a different execution led here ({kind:?})"
                    )));
                }
            }
        }
        self.decs.push(Dec {
            chosen: chosen as u8,
            n: n as u8,
            cost,
            kind,
            tid: self.cur as u8,
            sig: self.sig,
        });
        self.mix(chosen as u64 + 1);
        chosen
    }

    fn enabled(&self, t: usize) -> bool {
        let th = &self.threads[t];
        match th.st {
            St::Ready => true,
            St::Done => false,
            // SAFETY: the closure lives on the suspended coroutine's stack.
            St::Blocked => th.cond.is_some_and(|c| unsafe { (*c)() }),
        }
    }

    /// Chooses what runs next. `cur_enabled`: the running thread could go on.
    /// Returns the thread to run, or None if nothing can happen.
    fn pick(&mut self, kind: Kind, cur: usize, cur_enabled: bool) -> Option<usize> {
        #[derive(Clone, Copy)]
        enum O {
            T(usize),
            Ev(usize),
            Timer(usize),
        }
        let mut opts: [O; 32] = [O::T(0); 32];
        let mut n = 0;
        let mut cost = 0u32;
        if cur_enabled {
            opts[n] = O::T(cur);
            n += 1;
        }
        self.atomic_depth += 1;
        for t in 0..self.threads.len() {
            if t != cur && self.enabled(t) {
                if cur_enabled {
                    cost |= 1 << n;
                }
                opts[n] = O::T(t);
                n += 1;
            }
        }
        let threads_enabled = n;
        if n == 0 || self.cfg.early_events {
            for e in 0..self.events.len() {
                if n > 0 {
                    cost |= 1 << n;
                }
                opts[n] = O::Ev(e);
                n += 1;
            }
        }
        if (n == 0 || self.cfg.early_timers) && self.timers < self.cfg.timer_limit {
            for t in 0..self.threads.len() {
                if self.threads[t].st == St::Blocked && self.threads[t].timer && !self.enabled(t) {
                    if n > 0 {
                        cost |= 1 << n;
                    }
                    opts[n] = O::Timer(t);
                    n += 1;
                }
            }
        }
        self.atomic_depth -= 1;
        if n == 0 {
            return None;
        }
        let c = self.decide(kind, n, cost);
        let t = match opts[c] {
            O::T(t) => t,
            O::Ev(i) => {
                let ev = self.events.remove(i);
                if self.cfg.trace {
                    self.trace.push(format!("  event {}", ev.label));
                }
                self.mix(0x77);
                // The environment is not one of the threads: what it wakes is not on "its" runtime.
                let was = std::mem::replace(&mut self.cur, usize::MAX);
                self.atomic_depth += 1;
                self.quiescent = threads_enabled == 0;
                (ev.f)();
                self.atomic_depth -= 1;
                self.cur = was;
                if self.enabled(ev.target) {
                    ev.target
                } else if cur_enabled {
                    cur
                } else {
                    // the event did not enable its target: look again
                    return self.pick(kind, cur, cur_enabled);
                }
            }
            O::Timer(t) => {
                self.timers += 1;
                self.threads[t].timer_fired = true;
                if self.cfg.trace {
                    self.trace.push(format!("  timer of {}", self.threads[t].name));
                }
                t
            }
        };
        if self.cfg.trace && t != cur {
            let to = self.threads[t].name;
            self.trace.push(format!("--> {to}{}", if cur_enabled { "   (preempting)" } else { "" }));
        }
        Some(t)
    }
}

/// Leaves the running virtual thread; comes back when it is scheduled again.
fn suspend() {
    let y = {
        let e = exec().unwrap();
        e.threads[e.cur].yielder
    };
    // SAFETY: the yielder lives as long as the coroutine body.
    unsafe { (*y).suspend(()) };
}

/// A scheduling point before a visible operation.
#[inline]
pub fn point(kind: Kind, obj: usize) {
    let Some(e) = exec() else { return };
    if e.cur == usize::MAX || e.atomic_depth > 0 || std::thread::panicking() {
        return;
    }
    let _ = obj;
    e.steps += 1;
    if e.cfg.trace {
        let s = format!("  {} {:?}", e.threads[e.cur].name, kind);
        e.trace.push(s);
    }
    if e.steps > e.cfg.horizon {
        e.stop.get_or_insert(End::Horizon("scheduling points"));
    }
    if e.stop.is_some() {
        e.next = usize::MAX;
        suspend();
        return;
    }
    if e.cfg.mask & bit(kind) == 0 {
        return;
    }
    let cur = e.cur;
    let t = e.pick(kind, cur, true).unwrap();
    if e.stop.is_some() {
        e.next = usize::MAX;
        suspend();
    } else if t != cur {
        e.next = t;
        suspend();
    }
}

/// Blocks the running virtual thread until `cond` holds. With `timer`, the explorer may instead
/// let the timer fire: then true is returned.
pub fn block_until(kind: Kind, cond: &dyn Fn() -> bool, timer: bool) -> bool {
    let Some(e) = exec() else {
        assert!(cond(), "mcx: blocking outside of an exploration ({kind:?})");
        return false;
    };
    assert!(e.cur != usize::MAX, "mcx: blocking in the scheduler ({kind:?})");
    atomic::flush();
    loop {
        let e = exec().unwrap();
        e.atomic_depth += 1;
        let ok = cond();
        e.atomic_depth -= 1;
        if ok {
            return false;
        }
        assert!(e.atomic_depth == 0, "mcx: blocking in an atomic section ({kind:?})");
        let cur = e.cur;
        e.steps += 1;
        if e.cfg.trace {
            let s = format!("  {} blocks on {:?}", e.threads[cur].name, kind);
            e.trace.push(s);
        }
        // SAFETY: cleared below before the closure goes away.
        let erased: *const dyn Fn() -> bool = unsafe { std::mem::transmute(cond as *const _) };
        {
            let th = &mut e.threads[cur];
            th.st = St::Blocked;
            th.cond = Some(erased);
            th.block_kind = kind;
            th.timer = timer;
            th.timer_fired = false;
        }
        let t = e.pick(kind, cur, false);
        e.next = t.unwrap_or(usize::MAX);
        if e.stop.is_some() {
            e.next = usize::MAX;
        }
        if e.next != cur {
            suspend();
        }
        let e = exec().unwrap();
        let th = &mut e.threads[cur];
        th.st = St::Ready;
        th.cond = None;
        th.timer = false;
        if th.timer_fired {
            th.timer_fired = false;
            return true;
        }
    }
}

/// A data choice of the environment among n options; options 1.. cost `cost` each.
pub fn choose(kind: Kind, n: usize, cost: u32) -> usize {
    let Some(e) = exec() else { return 0 };
    if e.cfg.mask & bit(kind) == 0 {
        return 0;
    }
    let mask = if cost > 0 { !1u32 & ((1u64 << n) - 1) as u32 } else { 0 };
    let c = e.decide(kind, n, mask);
    if e.cfg.trace && n > 1 {
        e.trace.push(format!("  choice {kind:?} {c}/{n}"));
    }
    c
}

/// Registers an event of the environment that wakes virtual thread `target`.
/// It happens when nothing else can, or earlier at cost 1.
pub fn add_event(label: &'static str, target: usize, f: impl FnOnce() + 'static) {
    let e = exec().expect("add_event outside of an exploration");
    e.events.push(Event {
        target,
        f: Box::new(f),
        label,
    });
}

/// For the callback of an event: nothing but the environment could go on.
pub fn quiescent() -> bool {
    exec().is_some_and(|e| e.quiescent)
}

pub fn set_timer_fired(b: bool) {
    if let Some(e) = exec() {
        e.timer_flag = b;
    }
}
pub fn take_timer_fired() -> bool {
    exec().is_some_and(|e| std::mem::take(&mut e.timer_flag))
}

/// For the panic hook: returns true if the panic belongs to an exploration.
pub fn record_panic(msg: String) -> bool {
    match exec() {
        Some(e) if e.cur != usize::MAX => {
            let m = format!("{}: {msg}", current_name());
            e.panics.push(m);
            true
        }
        _ => false,
    }
}

pub struct Setup {
    bodies: Vec<(&'static str, Box<dyn FnOnce()>)>,
    idle: Option<Box<dyn FnMut(&[(&'static str, Kind)]) -> Idle>>,
}

impl Setup {
    /// Adds a virtual thread; threads are numbered in the order they are added.
    pub fn spawn(&mut self, name: &'static str, f: impl FnOnce() + 'static) -> usize {
        self.bodies.push((name, Box::new(f)));
        self.bodies.len() - 1
    }
    /// Called when no thread, event or timer can proceed and some thread has not finished.
    pub fn on_idle(&mut self, f: impl FnMut(&[(&'static str, Kind)]) -> Idle + 'static) {
        self.idle = Some(Box::new(f));
    }
}

const STACK: usize = 512 * 1024;

/// Stacks of abandoned executions.
struct Spare(DefaultStack);
// SAFETY: plain memory.
unsafe impl Send for Spare {}
static SPARE: std::sync::Mutex<Vec<Spare>> = std::sync::Mutex::new(Vec::new());

/// Runs one execution. Afterwards `poisoned()` tells whether this OS thread must not be reused
/// (an execution was abandoned in the middle).
pub fn run(
    cfg: &Config,
    prefix: &[u8],
    expect_sig: Option<u64>,
    build: impl FnOnce(&mut Setup),
) -> RunResult {
    assert!(CUR.with(|c| c.get()).is_null());
    let mut setup = Setup {
        bodies: Vec::new(),
        idle: None,
    };
    build(&mut setup);
    let ex = Box::new(UnsafeCell::new(Exec {
        cfg: cfg.clone(),
        threads: Vec::new(),
        cur: usize::MAX,
        next: 0,
        prefix: prefix.to_vec(),
        decs: Vec::with_capacity(64),
        sig: 0x1234_5678,
        expect_sig,
        steps: 0,
        timers: 0,
        atomic_depth: 0,
        events: Vec::new(),
        idle: setup.idle.take(),
        stop: None,
        trace: Vec::new(),
        panics: Vec::new(),
        timer_flag: false,
        quiescent: false,
    }));
    let p = ex.get();
    for (i, (name, body)) in setup.bodies.into_iter().enumerate() {
        let stack = STACKS
            .with(|s| s.borrow_mut().pop())
            .or_else(|| SPARE.lock().unwrap().pop().map(|s| s.0))
            .unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
        let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            {
                let e = exec().unwrap();
                e.threads[i].yielder = y;
            }
            let r = catch_unwind(AssertUnwindSafe(body));
            atomic::flush();
            let _ = r; // recorded by the panic hook
        });
        // SAFETY: no coroutine runs yet.
        unsafe { &mut *p }.threads.push(VThread {
            name,
            co: Some(co),
            st: St::Ready,
            block_kind: Kind::Start,
            cond: None,
            timer: false,
            timer_fired: false,
            yielder: std::ptr::null(),
            sb: Vec::new(),
        });
    }
    CUR.with(|c| c.set(p));
    let end = loop {
        let e = exec().unwrap();
        let t = e.next;
        let mut co = e.threads[t].co.take().expect("coroutine");
        e.cur = t;
        let r = co.resume(());
        let e = exec().unwrap();
        match r {
            CoroutineResult::Yield(()) => {
                e.threads[t].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                e.threads[t].st = St::Done;
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                e.next = usize::MAX;
                if e.stop.is_none() {
                    e.cur = t;
                    if let Some(n) = e.pick(Kind::Start, t, false) {
                        e.next = n;
                    }
                }
            }
        }
        e.cur = usize::MAX;
        if let Some(s) = e.stop.take() {
            break s;
        }
        while e.next == usize::MAX {
            if e.threads.iter().all(|t| t.st == St::Done) {
                break;
            }
            let blocked: Vec<(&'static str, Kind)> = e
                .threads
                .iter()
                .filter(|t| t.st != St::Done)
                .map(|t| (t.name, t.block_kind))
                .collect();
            let limit = e.timers >= e.cfg.timer_limit
                && e.threads.iter().any(|t| t.st == St::Blocked && t.timer);
            let mut idle = e.idle.take();
            let r = match &mut idle {
                Some(f) => f(&blocked),
                None => Idle::Stop,
            };
            let e = exec().unwrap();
            e.idle = idle;
            if r == Idle::Stop {
                e.stop = Some(if limit {
                    End::Horizon("timers")
                } else {
                    End::Deadlock(blocked.iter().map(|(n, k)| format!("{n} on {k:?}")).collect())
                });
                break;
            }
            if let Some(n) = e.pick(Kind::Start, usize::MAX, false) {
                e.next = n;
            }
        }
        let e = exec().unwrap();
        if let Some(s) = e.stop.take() {
            break s;
        }
        if e.next == usize::MAX {
            break End::Finished;
        }
    };
    CUR.with(|c| c.set(std::ptr::null_mut()));
    let mut b = ex.into_inner();
    if end != End::Finished {
        POISONED.with(|p| p.set(true));
        for mut t in b.threads.drain(..) {
            // The stack memory is reused; what lives on it is leaked without being dropped. Nothing
            // runs in this OS thread any more that could follow a pointer into it.
            if let Some(mut co) = t.co.take() {
                // SAFETY: see above; the thread is replaced.
                unsafe { co.force_reset() };
                SPARE.lock().unwrap().push(Spare(co.into_stack()));
            }
            std::mem::forget(t);
        }
        for ev in b.events.drain(..) {
            std::mem::forget(ev);
        }
    }
    RunResult {
        end,
        decs: std::mem::take(&mut b.decs),
        steps: b.steps,
        sig: b.sig,
        trace: std::mem::take(&mut b.trace),
        panics: std::mem::take(&mut b.panics),
    }
}

pub fn poisoned() -> bool {
    POISONED.with(|p| p.get())
}

