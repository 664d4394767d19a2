//! The process's clock: it can be made to jump ahead, so that what is driven
//! here sees pauses of any length.  Nothing may depend on them.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static AHEAD: AtomicI64 = AtomicI64::new(0);
static STATE: AtomicU64 = AtomicU64::new(0x9E37_79B9_7F4A_7C15);

unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// Takes the place of the C library's function of this name.
///
/// # Safety
/// `ts` points to a timespec.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32 {
    unsafe {
        let r = syscall(228, clock as i64, ts);
        if r == 0 {
            let ns = (*ts)[1] + AHEAD.load(Relaxed) % 1_000_000_000;
            (*ts)[0] += AHEAD.load(Relaxed) / 1_000_000_000 + ns / 1_000_000_000;
            (*ts)[1] = ns % 1_000_000_000;
        }
        r as i32
    }
}

/// Some time may pass.
pub fn pass() {
    let mut x = STATE.load(Relaxed);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    STATE.store(x, Relaxed);
    if x % 16 != 0 || AHEAD.load(Relaxed) > 1 << 61 {
        return;
    }
    let ns = match (x >> 8) % 12 {
        0 => 24 * 3_600_000_000_000,
        1 => 3_600_000_000_000,
        2 => 60_000_000_000,
        3 => 10_000_000_000,
        4 => 3_000_000_000,
        5 => 1_000_000_000,
        6 => 300_000_000,
        7 => 100_000_000,
        8 | 9 => 20_000_000,
        _ => 1_000_000,
    };
    AHEAD.fetch_add(ns, Relaxed);
}

/// The clock can be moved (otherwise nothing is shown about pauses).
pub fn works() -> bool {
    let a = std::time::Instant::now();
    AHEAD.fetch_add(7_000_000_000_000, Relaxed);
    a.elapsed().as_secs() >= 7000
}
