//! Seams below the standard library: this binary's own definitions of some
//! libc functions take the place of libc's.

use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

thread_local! {
    static KEYS: Cell<Option<u64>> = const { Cell::new(None) };
    static CLOCK: Cell<Option<i64>> = const { Cell::new(None) };
}

/// Wall clock of this thread from now on, in seconds; every look at it moves
/// it.
pub fn set_clock(s: i64) {
    CLOCK.with(|c| c.set(Some(s)));
}

#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    // the monotonic clock also times the simulator's own waits
    let c = if id == 0 || id == 5 { CLOCK.try_with(|c| c.get()).unwrap_or(None) } else { None };
    match c {
        Some(s) => {
            (*t).s = s;
            (*t).n = (simkit::mix(&[s as u64]) % 1_000_000_000) as i64;
            CLOCK.with(|c| c.set(Some(s + 1 + (simkit::mix(&[s as u64, 1]) % 90_000) as i64)));
            0
        }
        None => syscall(228, id as i64, t) as i32,
    }
}

/// Number of times a thread took its hash seed from the simulator.
pub static KEYS_SERVED: AtomicU64 = AtomicU64::new(0);

/// Hash seeds that `std` takes on this thread from now on.
pub fn set_hash_seed(k: u64) {
    KEYS.with(|c| c.set(Some(k)));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let k = KEYS.try_with(|c| c.get()).unwrap_or(None);
    match k {
        Some(k) => {
            KEYS_SERVED.fetch_add(1, Ordering::Relaxed);
            for i in 0..len {
                *buf.add(i) = (simkit::mix(&[k, i as u64 / 8]) >> (8 * (i % 8))) as u8;
            }
            len as isize
        }
        None => syscall(318, buf, len, flags) as isize,
    }
}

/// Countdown: the n-th pipe2 call from now fails with EMFILE (-1: never).
static PIPE_FAIL: AtomicI64 = AtomicI64::new(-1);
static PIPE_FIRED: AtomicI64 = AtomicI64::new(0);

pub fn fail_pipe(n: i64) {
    PIPE_FIRED.store(0, Ordering::SeqCst);
    PIPE_FAIL.store(n, Ordering::SeqCst);
}

pub fn pipe_failed() -> bool {
    PIPE_FAIL.store(-1, Ordering::SeqCst);
    PIPE_FIRED.swap(0, Ordering::SeqCst) != 0
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut i32, flags: i32) -> i32 {
    let n = PIPE_FAIL.load(Ordering::SeqCst);
    if n >= 0 {
        PIPE_FAIL.store(n - 1, Ordering::SeqCst);
        if n == 0 {
            PIPE_FIRED.store(1, Ordering::SeqCst);
            *__errno_location() = 24;
            return -1;
        }
    }
    syscall(293, fds, flags) as i32
}
