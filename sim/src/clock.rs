//! The simulated system clock: `clock_gettime` is interposed at link time, so the library's
//! own call to `SystemTime::now()` reads the clock of the simulator.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
static SECS: AtomicI64 = AtomicI64::new(0);
static NANOS: AtomicI64 = AtomicI64::new(0);
static STEP: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    // CLOCK_REALTIME and its coarse variant are simulated, monotonic clocks too if they are
    // read while the simulated clock is on (so that nothing real leaks in)
    if ON.load(SeqCst) {
        let (s, n) = (SECS.load(SeqCst), NANOS.load(SeqCst));
        (*ts).sec = s;
        (*ts).nsec = n;
        READS.fetch_add(1, SeqCst);
        let next = s as i128 * 1_000_000_000 + n as i128 + STEP.load(SeqCst) as i128;
        SECS.store(next.div_euclid(1_000_000_000) as i64, SeqCst);
        NANOS.store(next.rem_euclid(1_000_000_000) as i64, SeqCst);
        return 0;
    }
    syscall(228, clk as i64, ts) as i32
}

/// runs `f` with the system clock showing `ns` nanoseconds since the epoch, and advancing by
/// `step` ns after each reading; returns the result and the last reading given (ns)
pub fn with_clock<R>(ns: i128, step: i64, f: impl FnOnce() -> R) -> (R, i128, u64) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.store(false, SeqCst); } }
    SECS.store(ns.div_euclid(1_000_000_000) as i64, SeqCst);
    NANOS.store(ns.rem_euclid(1_000_000_000) as i64, SeqCst);
    STEP.store(step, SeqCst);
    READS.store(0, SeqCst);
    ON.store(true, SeqCst);
    let off = Off;
    let r = f();
    drop(off);
    let next = SECS.load(SeqCst) as i128 * 1_000_000_000 + NANOS.load(SeqCst) as i128;
    (r, next - step as i128, READS.load(SeqCst))
}
