//! Stand-in for parking_lot whose operations are scheduling points of the mcx explorer.
//! Outside of an exploration it behaves like an uncontended lock.

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub use lock_api;
use mcx::{block_until, point, Kind};

/// What the code under test uses instead of `std::sync::atomic` (cfg `stream_download_mc`).
pub mod mc {
    pub use mcx::atomic;
}

pub struct RawMutex(AtomicBool);

impl RawMutex {
    fn acquire(&self) {
        if self.0.load(SeqCst) {
            block_until(Kind::Lock, &|| !self.0.load(SeqCst), false);
        }
        self.0.store(true, SeqCst);
    }
}

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self(AtomicBool::new(false));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        point(Kind::Lock, self as *const _ as usize);
        mcx::atomic::flush();
        self.acquire();
    }
    fn try_lock(&self) -> bool {
        point(Kind::Lock, self as *const _ as usize);
        mcx::atomic::flush();
        !self.0.swap(true, SeqCst)
    }
    unsafe fn unlock(&self) {
        mcx::atomic::flush();
        self.0.store(false, SeqCst);
    }
    fn is_locked(&self) -> bool {
        self.0.load(SeqCst)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        lock_api::RawMutex::lock(self);
        true
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        lock_api::RawMutex::lock(self);
        true
    }
}

/// usize::MAX: a writer; otherwise the number of readers
pub struct RawRwLock(AtomicUsize);
const W: usize = usize::MAX;

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self(AtomicUsize::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        point(Kind::RwRead, self as *const _ as usize);
        mcx::atomic::flush();
        if self.0.load(SeqCst) == W {
            block_until(Kind::RwRead, &|| self.0.load(SeqCst) != W, false);
        }
        self.0.fetch_add(1, SeqCst);
    }
    fn try_lock_shared(&self) -> bool {
        point(Kind::RwRead, self as *const _ as usize);
        mcx::atomic::flush();
        if self.0.load(SeqCst) == W {
            return false;
        }
        self.0.fetch_add(1, SeqCst);
        true
    }
    unsafe fn unlock_shared(&self) {
        mcx::atomic::flush();
        self.0.fetch_sub(1, SeqCst);
    }
    fn lock_exclusive(&self) {
        point(Kind::RwWrite, self as *const _ as usize);
        mcx::atomic::flush();
        if self.0.load(SeqCst) != 0 {
            block_until(Kind::RwWrite, &|| self.0.load(SeqCst) == 0, false);
        }
        self.0.store(W, SeqCst);
    }
    fn try_lock_exclusive(&self) -> bool {
        point(Kind::RwWrite, self as *const _ as usize);
        mcx::atomic::flush();
        if self.0.load(SeqCst) != 0 {
            return false;
        }
        self.0.store(W, SeqCst);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        mcx::atomic::flush();
        self.0.store(0, SeqCst);
    }
    fn is_locked(&self) -> bool {
        self.0.load(SeqCst) != 0
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.store(1, SeqCst);
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(mcx::ctx_index() + 1).unwrap()
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::from_raw(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::from_raw(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

/// Condition variable without spurious wake-ups. A waiter takes a ticket; notify_all serves every
/// ticket handed out so far, notify_one the oldest unserved one.
#[derive(Default)]
pub struct Condvar {
    next: AtomicUsize,
    served: AtomicUsize,
}


impl Condvar {
    pub const fn new() -> Self {
        Self {
            next: AtomicUsize::new(0),
            served: AtomicUsize::new(0),
        }
    }
    pub fn notify_one(&self) -> bool {
        point(Kind::CvNotify, self as *const _ as usize);
        if self.served.load(SeqCst) < self.next.load(SeqCst) {
            self.served.fetch_add(1, SeqCst);
            true
        } else {
            false
        }
    }
    pub fn notify_all(&self) -> usize {
        point(Kind::CvNotify, self as *const _ as usize);
        let n = self.next.load(SeqCst) - self.served.load(SeqCst);
        self.served.store(self.next.load(SeqCst), SeqCst);
        n
    }
    fn wait_inner<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, timer: bool) -> bool {
        let ticket = self.next.fetch_add(1, SeqCst);
        let m = MutexGuard::mutex(g);
        // SAFETY: the guard's mutex is released and taken again, as in a condition variable wait.
        let fired = unsafe {
            lock_api::RawMutex::unlock(m.raw());
            let fired = block_until(Kind::CvWait, &|| self.served.load(SeqCst) > ticket, timer);
            m.raw().acquire();
            fired
        };
        if fired && self.served.load(SeqCst) <= ticket {
            self.served.fetch_add(1, SeqCst);
        }
        fired
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.wait_inner(g, false);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(self.wait_inner(g, true))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _d: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(self.wait_inner(g, true))
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut *g) {
            self.wait(g);
        }
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut f: F,
        d: Duration,
    ) -> WaitTimeoutResult {
        while f(&mut *g) {
            if self.wait_for(g, d).timed_out() {
                return WaitTimeoutResult(f(&mut *g));
            }
        }
        WaitTimeoutResult(false)
    }
    pub fn wait_while_until<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        f: F,
        _d: Instant,
    ) -> WaitTimeoutResult {
        self.wait_while_for(g, f, Duration::ZERO)
    }
}

impl std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Condvar { .. }")
    }
}

pub use std::sync::Once;
