//! A virtual clock under the real code: the binary defines `clock_gettime`, which the standard
//! library (Instant, SystemTime) and chrono use. Per thread; off by default.
use std::cell::Cell;

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// time since an arbitrary origin: monotonic clocks
    static MONO: Cell<i128> = const { Cell::new(0) };
    /// wall clock
    static REAL: Cell<i128> = const { Cell::new(0) };
    /// advance of both clocks on every read of any clock (a slow, preempted reader)
    static TICK: Cell<i64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
    /// first and last value of the monotonic clock handed out since `mark`
    static FIRST: Cell<i128> = const { Cell::new(0) };
    static LAST: Cell<i128> = const { Cell::new(0) };
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// # Safety
/// libc interface
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let v = match clk {
            0 | 5 | 11 => REAL.with(|c| c.get()),
            2 | 3 => 0,
            _ => MONO.with(|c| c.get()),
        };
        let n = READS.with(|c| c.replace(c.get() + 1));
        if clk == 1 || clk == 4 || clk == 6 || clk == 7 {
            if n == 0 {
                FIRST.with(|c| c.set(v));
            }
            LAST.with(|c| c.set(v));
        }
        let t = TICK.with(|c| c.get());
        if t != 0 {
            advance(t as i128);
        }
        (*ts).sec = v.div_euclid(1_000_000_000) as i64;
        (*ts).nsec = v.rem_euclid(1_000_000_000) as i64;
        return 0;
    }
    syscall(228, clk as i64, ts) as i32
}

/// Nanoseconds of the real clock, even if the virtual one is on: 1 for the time that passes, 3 for the CPU time of this thread.
pub fn real_ns(clk: i64) -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(228, clk, &mut t as *mut Timespec) };
    t.sec * 1_000_000_000 + t.nsec
}

/// How often this thread gave up the processor on its own account: waited.
pub fn waited() -> i64 {
    let mut u = [0i64; 18];
    unsafe { syscall(98, 1i64, u.as_mut_ptr()) };
    u[16]
}

pub fn on(mono: i128, real: i128) {
    MONO.with(|c| c.set(mono));
    REAL.with(|c| c.set(real));
    TICK.with(|c| c.set(0));
    READS.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}
pub fn off() {
    ON.with(|c| c.set(false));
}
pub fn advance(ns: i128) {
    MONO.with(|c| c.set(c.get() + ns));
    REAL.with(|c| c.set(c.get() + ns));
}
pub fn step_wall(ns: i128) {
    REAL.with(|c| c.set(c.get() + ns));
}
pub fn set_wall(ns: i128) {
    REAL.with(|c| c.set(ns));
}
pub fn tick(ns: i64) {
    TICK.with(|c| c.set(ns));
}
pub fn now() -> i128 {
    MONO.with(|c| c.get())
}
pub fn wall() -> i128 {
    REAL.with(|c| c.get())
}
/// Forgets the reads seen so far.
pub fn mark() {
    READS.with(|c| c.set(0));
}
/// Reads since `mark`, with the first and last monotonic value handed out.
pub fn reads() -> (u64, i128, i128) {
    (READS.with(|c| c.get()), FIRST.with(|c| c.get()), LAST.with(|c| c.get()))
}
