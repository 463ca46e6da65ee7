//! Virtual wall clock: `SystemTime::now()` everywhere in this process reads it, because the
//! executable's own `clock_gettime` symbol wins over libc's. Monotonic clocks are untouched.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

static FROZEN: AtomicBool = AtomicBool::new(false);
static SEC: AtomicI64 = AtomicI64::new(0);
static NSEC: AtomicI64 = AtomicI64::new(0);
/// Every reading moves the clock on by so many nanoseconds.
static STEP: AtomicI64 = AtomicI64::new(0);
static READS: AtomicI64 = AtomicI64::new(0);

pub fn set(sec: i64, nsec: i64) {
    SEC.store(sec, Ordering::SeqCst);
    NSEC.store(nsec, Ordering::SeqCst);
    FROZEN.store(true, Ordering::SeqCst);
}

/// Starts to count the readings; each moves the clock.
pub fn step(nsec: i64) {
    STEP.store(nsec, Ordering::SeqCst);
    READS.store(0, Ordering::SeqCst);
}

pub fn reads() -> i64 {
    READS.load(Ordering::SeqCst)
}

pub fn get() -> (i64, i64) {
    (SEC.load(Ordering::SeqCst), NSEC.load(Ordering::SeqCst))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    // CLOCK_REALTIME and CLOCK_REALTIME_COARSE
    if (id == 0 || id == 5) && FROZEN.load(Ordering::SeqCst) {
        (*ts).sec = SEC.load(Ordering::SeqCst);
        (*ts).nsec = NSEC.load(Ordering::SeqCst);
        READS.fetch_add(1, Ordering::SeqCst);
        let step = STEP.load(Ordering::SeqCst);
        if step != 0 {
            let n = (*ts).nsec + step;
            SEC.fetch_add(n / 1_000_000_000, Ordering::SeqCst);
            NSEC.store(n % 1_000_000_000, Ordering::SeqCst);
        }
        return 0;
    }
    syscall(228, id as i64, ts) as i32
}
