//! An execution that crashes the process (stack overflow, abort) is a result like any other: the
//! worker stops where it is, and the watchdog reports what it was executing.

use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

static CRASHED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

extern "C" fn on_signal(signal: libc::c_int) {
    let me = ME.get();
    unsafe {
        if me == 0 {
            // not while exploring
            libc::signal(signal, libc::SIG_DFL);
            return;
        }
        CRASHED.store(me, Ordering::SeqCst);
        // in case that the watchdog cannot go on either
        libc::alarm(60);
        loop {
            libc::pause();
        }
    }
}

/// From here on this thread executes what is explored.
pub fn watch(worker: usize) {
    const SIZE: usize = 256 << 10;
    let stack: &'static mut [u8] = Box::leak(vec![0; SIZE].into_boxed_slice());
    unsafe {
        let s = libc::stack_t { ss_sp: stack.as_mut_ptr().cast(), ss_flags: 0, ss_size: SIZE };
        libc::sigaltstack(&s, std::ptr::null_mut());
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_signal as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for signal in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT] {
            libc::sigaction(signal, &a, std::ptr::null_mut());
        }
    }
    ME.set(worker + 1);
}

/// The worker whose execution crashed.
pub fn crashed() -> Option<usize> {
    CRASHED.load(Ordering::SeqCst).checked_sub(1)
}
