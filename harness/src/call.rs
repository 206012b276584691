//! Every call into the library goes through `call`: it records what is being called (so that a
//! crash or a hang can be attributed), and turns a panic into a value.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

pub const MAXARG: usize = 10;

#[derive(Clone, Copy)]
pub struct Cur {
    pub name: &'static str,
    pub args: [u64; MAXARG],
    pub n: usize,
    /// up to three text inputs (pointer, bytes) which are alive during the call
    pub bufs: [(usize, usize); 3],
    pub in_call: bool,
}

const IDLE: Cur = Cur { name: "", args: [0; MAXARG], n: 0, bufs: [(0, 0); 3], in_call: false };

thread_local! {
    pub static CUR: Cell<Cur> = const { Cell::new(IDLE) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static BUFS: Cell<[(usize, usize); 3]> = const { Cell::new([(0, 0); 3]) };
}

pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static PANICS: AtomicU64 = AtomicU64::new(0);

/// Watchdog slots: sequence number of the call (odd: in a call).
const SLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static SEQ: [AtomicU64; SLOTS] = [Z; SLOTS];
static NAMES: [AtomicUsize; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const U: AtomicUsize = AtomicUsize::new(0);
    [U; SLOTS]
};
static LENS: [AtomicUsize; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const U: AtomicUsize = AtomicUsize::new(0);
    [U; SLOTS]
};
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, Relaxed) % SLOTS);
        }
        s.get()
    })
}

const SEEN: usize = 4096;
static SEEN_PTR: [AtomicUsize; SEEN] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const U: AtomicUsize = AtomicUsize::new(0);
    [U; SEEN]
};
static SEEN_LEN: [AtomicUsize; SEEN] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const U: AtomicUsize = AtomicUsize::new(0);
    [U; SEEN]
};
/// Remembers the names of all functions called (at most SEEN of them)
#[inline]
fn seen(name: &'static str) {
    let p = name.as_ptr() as usize;
    let mut k = (p ^ (p >> 12)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52;
    for _ in 0..SEEN {
        match SEEN_PTR[k].load(Relaxed) {
            0 => {
                if SEEN_PTR[k].compare_exchange(0, p, Relaxed, Relaxed).map_or_else(|q| q == p, |_| true) {
                    SEEN_LEN[k].store(name.len(), Relaxed);
                    return;
                }
            }
            q if q == p => {
                if SEEN_LEN[k].load(Relaxed) != name.len() {
                    SEEN_LEN[k].store(name.len(), Relaxed);
                }
                return;
            }
            _ => {}
        }
        k = (k + 1) % SEEN;
    }
}
/// The names of all functions which were called
pub fn called() -> Vec<String> {
    let mut v: Vec<String> = (0..SEEN)
        .filter_map(|k| {
            let p = SEEN_PTR[k].load(Relaxed);
            (p != 0).then(|| String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p as *const u8, SEEN_LEN[k].load(Relaxed)) }).into_owned())
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

/// Text inputs of the next call, for the report of a crash.
pub fn set_bufs(b: &[&[u8]]) {
    let mut a = [(0, 0); 3];
    for (i, x) in b.iter().take(3).enumerate() {
        a[i] = (x.as_ptr() as usize, x.len());
    }
    BUFS.with(|c| c.set(a));
}

#[inline]
pub fn call<R>(name: &'static str, args: &[u64], f: impl FnOnce() -> R) -> Result<R, ()> {
    seen(name);
    let mut c = IDLE;
    c.name = name;
    c.n = args.len().min(MAXARG);
    c.args[..c.n].copy_from_slice(&args[..c.n]);
    c.in_call = true;
    c.bufs = BUFS.with(|b| b.replace([(0, 0); 3]));
    CUR.with(|k| k.set(c));
    let s = slot();
    NAMES[s].store(name.as_ptr() as usize, Relaxed);
    LENS[s].store(name.len(), Relaxed);
    SEQ[s].fetch_add(1, Relaxed);
    #[cfg(feature = "heap")]
    let before = crate::alloc::State::now();
    #[cfg(feature = "heap")]
    let timed = TIMED.with(|t| t.get()).then(|| (crate::clock::waited(), crate::clock::real_ns(3), crate::clock::real_ns(1)));
    let r = catch_unwind(AssertUnwindSafe(f));
    #[cfg(feature = "heap")]
    if let Some((waited, cpu, wall)) = timed {
        let wall = crate::clock::real_ns(1) - wall;
        let cpu = crate::clock::real_ns(3) - cpu;
        TOOK.with(|t| t.set((wall, cpu, crate::clock::waited() - waited)));
    }
    #[cfg(feature = "heap")]
    crate::alloc::State::end(&before).since(before);
    SEQ[s].fetch_add(1, Relaxed);
    CUR.with(|k| {
        let mut c = k.get();
        c.in_call = false;
        k.set(c)
    });
    LOCAL_CALLS.with(|l| l.set(l.get() + 1));
    r.map_err(|_| {
        LOCAL_PANICS.with(|l| l.set(l.get() + 1));
    })
}

#[cfg(feature = "heap")]
thread_local! {
    /// measure the time of calls
    pub static TIMED: Cell<bool> = const { Cell::new(false) };
    /// time and CPU time of the last call, and how often it gave up the processor on its own account
    pub static TOOK: Cell<(i64, i64, i64)> = const { Cell::new((0, 0, 0)) };
}
thread_local! {
    static LOCAL_CALLS: Cell<u64> = const { Cell::new(0) };
    static LOCAL_PANICS: Cell<u64> = const { Cell::new(0) };
}

pub fn flush_counters() {
    CALLS.fetch_add(LOCAL_CALLS.with(|l| l.replace(0)), Relaxed);
    PANICS.fetch_add(LOCAL_PANICS.with(|l| l.replace(0)), Relaxed);
}

pub fn cur() -> Cur {
    CUR.with(|c| c.get())
}

pub fn describe(c: &Cur) -> String {
    let mut s = format!("{}(", c.name);
    for i in 0..c.n {
        if i > 0 {
            s += ", ";
        }
        s += &format!("{:#x}", c.args[i]);
    }
    s += ")";
    for (p, n) in c.bufs {
        if p != 0 {
            let b = unsafe { std::slice::from_raw_parts(p as *const u8, n.min(600)) };
            s += &format!(" in={:?}", crate::esc(b));
        }
    }
    s
}

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn pause() -> i32;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}

/// Set by the first thread which reports a crash; the process ends with it.
pub static CRASHED: AtomicBool = AtomicBool::new(false);
/// File for the first report of a crash, which is written without allocating.
static CRASH_FD: AtomicI32 = AtomicI32::new(-1);

pub fn open_crash_file(path: &str) {
    use std::os::fd::IntoRawFd;
    if let Ok(f) = std::fs::File::create(path) {
        CRASH_FD.store(f.into_raw_fd(), Relaxed);
    }
}

/// Name and arguments of the call, without the heap (which may be what is broken).
fn raw_report(sig: i32, c: &Cur) {
    let mut b = [0_u8; 512];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for x in s {
            if n < b.len() {
                b[n] = *x;
                n += 1;
            }
        }
    };
    put(b"signal ");
    put(&[b'0' + (sig / 10 % 10) as u8, b'0' + (sig % 10) as u8]);
    put(b" during ");
    put(c.name.as_bytes());
    for a in &c.args[..c.n] {
        put(b" ");
        for k in (0..16).rev() {
            put(&[b"0123456789abcdef"[(a >> (4 * k)) as usize & 15]]);
        }
    }
    put(b"\n");
    let fd = CRASH_FD.load(Relaxed);
    if fd >= 0 {
        unsafe { write(fd, b.as_ptr(), n) };
    }
}

extern "C" fn on_signal(sig: i32) {
    // Best effort reporting: the process is lost anyway.
    let c = cur();
    if CRASHED.swap(true, SeqCst) {
        loop {
            unsafe { pause() };
        }
    }
    if c.in_call {
        raw_report(sig, &c);
        // ends the process if the report gets stuck in a lock of the interrupted code
        unsafe { alarm(5) };
        crate::report::crash(&format!("signal {sig} during {}", describe(&c)));
        unsafe { _exit(1) }
    }
    eprintln!("HARNESS FAILURE: signal {sig} outside of a monitored call (last: {})", describe(&c));
    unsafe { _exit(3) }
}

pub fn install_alt_stack() {
    unsafe {
        let size = 1 << 18;
        let sp = mmap(std::ptr::null_mut(), size, 3, 0x22, -1, 0);
        sigaltstack(&StackT { sp, flags: 0, size }, std::ptr::null_mut());
    }
}

pub fn install() {
    install_alt_stack();
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction { handler: on_signal as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
    std::panic::set_hook(Box::new(|info| {
        if !cur().in_call {
            eprintln!("HARNESS FAILURE: {info}");
        }
    }));
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u32); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..SLOTS {
                let v = SEQ[i].load(Relaxed);
                if v % 2 == 1 && v == last[i].0 {
                    last[i].1 += 1;
                    if last[i].1 > 60 {
                        let name = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(NAMES[i].load(Relaxed) as *const u8, LENS[i].load(Relaxed))) };
                        if !CRASHED.swap(true, SeqCst) {
                            crate::report::crash(&format!("a call of {name} did not return within 30 s"));
                            unsafe { _exit(1) }
                        }
                    }
                } else {
                    last[i] = (v, 0);
                }
            }
        }
    });
}
