//! The environment under the real code: the binary defines `getenv`, which the standard library and
//! others use. Answers can be made up for any name.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

/// 0: the environment as it is, else an answer for every name
static MODE: AtomicUsize = AtomicUsize::new(0);
pub static ASKED: AtomicU64 = AtomicU64::new(0);
/// answers of the modes; the last one is "no variable"
pub const ANSWERS: [&str; 6] = ["1\0", "0\0", "de_DE.UTF-8\0", "tr_TR.ISO-8859-9\0", "\0", ""];

pub fn answer(mode: usize) {
    MODE.store(mode, Relaxed);
}

extern "C" {
    static environ: *const *const u8;
}

/// # Safety
/// libc interface
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn getenv(name: *const u8) -> *mut u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let wanted = std::slice::from_raw_parts(name, n);
    let mode = MODE.load(Relaxed);
    // how panics are reported, and what this harness and sanitizers are told
    if mode > 0 && !wanted.starts_with(b"RUST_") && !wanted.starts_with(b"VERIF_") {
        ASKED.fetch_add(1, Relaxed);
        let a = ANSWERS[mode - 1];
        return if a.is_empty() { std::ptr::null_mut() } else { a.as_ptr() as *mut u8 };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        let mut k = 0;
        while k < n && *v.add(k) == wanted[k] {
            k += 1;
        }
        if k == n && *v.add(n) == b'=' {
            return v.add(n + 1) as *mut u8;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
