//! Atomics with scheduling points and, on request, store buffering.
//!
//! With `Config::weak`, a store weaker than SeqCst may (at cost 1) stay in the storing thread's
//! buffer until that thread's next fence: an atomic read-modify-write, a SeqCst store, a lock
//! operation or blocking. This is what x86 does in hardware and what every weaker model allows.

use std::sync::atomic as std_atomic;
pub use std::sync::atomic::Ordering;

use crate::{choose, exec, point, Kind};

pub(crate) struct Pending {
    addr: usize,
    val: u64,
    commit: fn(usize, u64),
}

/// Commits the running thread's buffered stores.
pub fn flush() {
    if let Some(e) = exec() {
        if e.cur == usize::MAX {
            return;
        }
        let cur = e.cur;
        for p in std::mem::take(&mut e.threads[cur].sb) {
            (p.commit)(p.addr, p.val);
        }
    }
}

fn buffered(addr: usize) -> Option<u64> {
    let e = exec()?;
    if e.cur == usize::MAX {
        return None;
    }
    e.threads[e.cur].sb.iter().rev().find(|p| p.addr == addr).map(|p| p.val)
}

/// Returns true if the store was buffered.
fn try_buffer(addr: usize, val: u64, commit: fn(usize, u64)) -> bool {
    let Some(e) = exec() else { return false };
    if e.cur == usize::MAX || !e.cfg.weak || e.atomic_depth > 0 {
        return false;
    }
    // a later store to the buffered location must stay behind the earlier ones
    let must = !e.threads[e.cur].sb.is_empty();
    if must || choose(Kind::Weak, 2, 1) == 1 {
        let e = exec().unwrap();
        let cur = e.cur;
        e.threads[cur].sb.push(Pending { addr, val, commit });
        true
    } else {
        false
    }
}

pub fn fence(o: Ordering) {
    point(Kind::AtomicRmw, 0);
    flush();
    std_atomic::fence(o);
}

macro_rules! base {
    ($name:ident, $std:ident, $t:ty) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $name(std_atomic::$std);
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                std::fmt::Debug::fmt(&self.0, f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(std_atomic::$std::new(v))
            }
            fn addr(&self) -> usize {
                self as *const _ as usize
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn load(&self, _o: Ordering) -> $t {
                point(Kind::AtomicLoad, self.addr());
                match buffered(self.addr()) {
                    Some(v) => Self::from_u64(v),
                    None => self.0.load(Ordering::SeqCst),
                }
            }
            pub fn store(&self, v: $t, o: Ordering) {
                point(Kind::AtomicStore, self.addr());
                if o != Ordering::SeqCst {
                    fn commit(a: usize, v: u64) {
                        // SAFETY: flushed before the owner drops its reference (at the latest when
                        // the storing thread blocks, locks or ends).
                        unsafe { &*(a as *const $name) }
                            .0
                            .store($name::from_u64(v), Ordering::SeqCst);
                    }
                    if try_buffer(self.addr(), Self::to_u64(v), commit) {
                        return;
                    }
                } else {
                    flush();
                }
                self.0.store(v, Ordering::SeqCst);
            }
            pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                point(Kind::AtomicRmw, self.addr());
                flush();
                self.0.swap(v, Ordering::SeqCst)
            }
            pub fn compare_exchange(
                &self,
                a: $t,
                b: $t,
                _s: Ordering,
                _f: Ordering,
            ) -> Result<$t, $t> {
                point(Kind::AtomicRmw, self.addr());
                flush();
                self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(
                &self,
                a: $t,
                b: $t,
                s: Ordering,
                f: Ordering,
            ) -> Result<$t, $t> {
                self.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                _s: Ordering,
                _f: Ordering,
                mut f: F,
            ) -> Result<$t, $t> {
                point(Kind::AtomicRmw, self.addr());
                flush();
                let v = self.0.load(Ordering::SeqCst);
                match f(v) {
                    Some(n) => {
                        self.0.store(n, Ordering::SeqCst);
                        Ok(v)
                    }
                    None => Err(v),
                }
            }
        }
    };
}

macro_rules! rmw {
    ($name:ident, $t:ty, $($op:ident),*) => {
        impl $name { $(
            pub fn $op(&self, v: $t, _o: Ordering) -> $t {
                point(Kind::AtomicRmw, self.addr());
                flush();
                self.0.$op(v, Ordering::SeqCst)
            } )*
        }
    };
}

macro_rules! int {
    ($name:ident, $t:ty) => {
        base!($name, $name, $t);
        rmw!($name, $t, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or, fetch_xor, fetch_nand);
        impl $name {
            fn to_u64(v: $t) -> u64 {
                v as u64
            }
            fn from_u64(v: u64) -> $t {
                v as $t
            }
        }
    };
}

int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);
base!(AtomicBool, AtomicBool, bool);
rmw!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
impl AtomicBool {
    fn to_u64(v: bool) -> u64 {
        u64::from(v)
    }
    fn from_u64(v: u64) -> bool {
        v != 0
    }
}
