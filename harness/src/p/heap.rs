//! C36: a call leaves nothing behind in the process but its result: no memory, no open files,
//! threads, output, changed environment or modes.
use super::fbs::{all_blocks, any_inputs, scan, In, Model};
use super::pure::round;
use crate::alloc::left;
use crate::*;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::OnceLock;

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn pthread_sigmask(how: i32, set: *const u64, old: *mut u64) -> i32;
}

#[derive(Debug, Clone, PartialEq)]
struct Process {
    files: Vec<String>,
    threads: usize,
    dir: Option<std::path::PathBuf>,
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    output: u64,
    signals: [u64; 16],
    umask: String,
}
fn process() -> Process {
    let mut files = vec![];
    for f in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        if let Ok(t) = std::fs::read_link(f.path()) {
            let t = t.to_string_lossy().into_owned();
            // of the listing itself, here or in another thread
            if !t.starts_with("/proc/") {
                files.push(t);
            }
        }
    }
    files.sort();
    let mut signals = [0u64; 16];
    unsafe { pthread_sigmask(0, std::ptr::null(), signals.as_mut_ptr()) };
    let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    Process {
        files,
        threads: std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0),
        dir: std::env::current_dir().ok(),
        env: std::env::vars_os().collect(),
        output: output(),
        signals,
        umask: status.lines().find(|l| l.starts_with("Umask")).unwrap_or("").to_string(),
    }
}
static CAPTURED: OnceLock<std::fs::File> = OnceLock::new();
/// Standard output and error go to memory, where everything written is found.
fn capture() {
    unsafe {
        let fd = memfd_create("output\0".as_ptr(), 0);
        if fd < 0 {
            return;
        }
        let f = std::fs::File::from_raw_fd(fd);
        dup2(f.as_raw_fd(), 1);
        dup2(f.as_raw_fd(), 2);
        let _ = CAPTURED.set(f);
    }
}
fn output() -> u64 {
    CAPTURED.get().and_then(|f| f.metadata().ok()).map(|m| m.len()).unwrap_or(0)
}
fn captured() -> String {
    let Some(mut f) = CAPTURED.get() else { return String::new() };
    let mut s = vec![];
    let at = f.stream_position().unwrap_or(0);
    let _ = f.seek(SeekFrom::Start(0));
    let _ = f.take(400).read_to_end(&mut s);
    let _ = f.seek(SeekFrom::Start(at));
    esc(&s)
}

/// Every function with many arguments, each call again and again.
fn memory(cx: &mut Ctx) {
    for k in 0..cx.n(60) {
        if cx.stop() {
            return;
        }
        for c in round(&mut cx.rng) {
            let mut grown = 0;
            let mut bytes = 0;
            for again in 0..6 {
                let ok = (c.run)().is_ok();
                let l = left();
                if let Some((a, b)) = l.modes {
                    cx.violation(c.name, || format!("{}: the modes of the floating point units (MXCSR, x87) are {b:x?} after the call and were {a:x?} before", c.describe()));
                    return;
                }
                if !ok {
                    cx.ev("refused: not judged");
                    break;
                }
                cx.ev(if l.taken > 0 { "memory was taken in the call" } else { "no memory was taken" });
                if again == 0 {
                    cx.eval(hashes(&[hash_str(&c.describe())]), l.taken > 0);
                }
                // kept once may be set up for all times
                if l.bytes <= 0 {
                    break;
                }
                cx.ev("memory was kept");
                grown += 1;
                bytes += l.bytes;
            }
            cx.check(grown < 6, c.name, || format!("{}: each of {grown} identical calls in a row keeps memory ({bytes} bytes in all)", c.describe()));
            if output() > 0 {
                let t = captured();
                cx.violation("output", || format!("calls write to standard output or error: {t:?}"));
                return;
            }
            if k == 0 && grown == 0 && left().taken > 0 && left().bytes == 0 && cx.rng.one_in(20) {
                cx.sample(|| format!("{}: {} allocations, all given back", c.describe(), left().taken));
            }
        }
    }
}
/// All functions in turn with new arguments each time: the memory in use settles.
fn settles(cx: &mut Ctx) {
    let mut kept: std::collections::BTreeMap<&'static str, [i64; 4]> = Default::default();
    // rounds 0..a, a..2a, 2a..4a, 4a..8a
    let a = cx.n(12).clamp(12, 400);
    let mut done = 0;
    for (part, n) in [a, a, 2 * a, 4 * a].into_iter().enumerate() {
        for _ in 0..n {
            if cx.stop() {
                return;
            }
            for c in round(&mut cx.rng) {
                if (c.run)().is_ok() {
                    kept.entry(c.name).or_default()[part] += left().bytes;
                    cx.eval(hashes(&[hash_str(&c.describe()), 1]), left().taken > 0);
                }
            }
            done += 1;
        }
    }
    for (name, k) in kept {
        cx.ev("function watched with changing arguments");
        let grows = k[1] >= a as i64 && k[2] >= 2 * a as i64 && k[3] >= 4 * a as i64;
        cx.check(!grows, name, || format!("{name}: the memory it keeps grows with every call: {k:?} bytes in {a}, {a}, {}, {} calls with different arguments", 2 * a, 4 * a));
    }
    let _ = done;
}
fn blocks(cx: &mut Ctx) {
    let bs = all_blocks();
    let mut ev = vec![];
    for b in &bs {
        if cx.stop() {
            return;
        }
        let n = cx.n(200).max(100);
        let g = fb::Inst::new(b.l);
        let mut m = Model::new();
        let mut i = In::default();
        clock::on(1 << 40, 1_700_000_000_000_000_000);
        let mut kept = [0i64; 3];
        let mut modes = None;
        for (part, n) in [n, n, 2 * n].into_iter().enumerate() {
            for k in 0..n {
                clock::advance(cx.rng.range(0, 12_000_000) as i128);
                i = any_inputs(&mut cx.rng, b, &m, &i);
                ev.clear();
                if scan(b, &mut m, g.ptr(), &i, &mut ev).is_ok() {
                    kept[part] += left().bytes;
                    modes = modes.or(left().modes);
                    cx.eval(hashes(&[cx.chunk as u64, part as u64, k as u64, hash_str(b.name)]), true);
                }
            }
        }
        clock::off();
        cx.ev("block watched");
        let n = n as i64;
        cx.check(!(kept[1] >= n && kept[2] >= 2 * n), b.name, || format!("{}: the memory an instance keeps grows with every call: {kept:?} bytes in {n}, {n}, {} calls", b.name, 2 * n));
        cx.check(modes.is_none(), b.name, || format!("{}: the modes of the floating point units changed: {modes:x?}", b.name));
    }
}
/// The process before and after calls, in a single thread.
fn process_state(cx: &mut Ctx) {
    let bs = all_blocks();
    for _ in 0..cx.n(20) {
        if cx.stop() {
            return;
        }
        // the first calls may set something up
        let cases = round(&mut cx.rng);
        for c in &cases {
            let _ = (c.run)();
        }
        let call_all = |cx: &mut Ctx, which: std::ops::Range<usize>| {
            for c in &cases[which] {
                if (c.run)().is_ok() {
                    cx.eval(hashes(&[hash_str(&c.describe()), 2]), true);
                }
            }
        };
        let _ = call("TIME", &[], || unsafe { ffi::TIME() });
        let before = process();
        call_all(cx, 0..cases.len());
        for _ in 0..3 {
            let _ = call("TIME", &[], || unsafe { ffi::TIME() });
        }
        for b in &bs {
            let g = fb::Inst::new(b.l);
            let (mut m, mut ev) = (Model::new(), vec![]);
            for k in 0..4 {
                let i = In { a: k % 2 == 1, pv: 1, ..In::default() };
                let _ = scan(b, &mut m, g.ptr(), &i, &mut ev);
            }
        }
        let after = process();
        cx.ev("process compared");
        if before != after {
            // which one was it?
            let mut who = vec![];
            for k in 0..cases.len() {
                let b = process();
                call_all(cx, k..k + 1);
                if process() != b {
                    who.push(cases[k].describe());
                }
            }
            cx.violation("process", || format!("calls changed the process: {}; output: {:?}; by {who:?}", difference(&before, &after), captured()));
            return;
        }
    }
}
fn difference(a: &Process, b: &Process) -> String {
    let mut s = vec![];
    if a.files != b.files {
        s.push(format!("open files {:?} -> {:?}", a.files, b.files));
    }
    if a.threads != b.threads {
        s.push(format!("threads {} -> {}", a.threads, b.threads));
    }
    if a.dir != b.dir {
        s.push(format!("working directory {:?} -> {:?}", a.dir, b.dir));
    }
    if a.env != b.env {
        s.push("environment variables".into());
    }
    if a.output != b.output {
        s.push(format!("{} bytes of output", b.output - a.output));
    }
    if a.signals != b.signals {
        s.push("blocked signals".into());
    }
    if a.umask != b.umask {
        s.push(format!("umask {} -> {}", a.umask, b.umask));
    }
    s.join(", ")
}
// ---------------------------------------------------------------------------------------------- C39

/// Bytes of stack a call may need, and of heap memory in use at the same time: a fixed part and a part per byte of its arguments.
const STACK: usize = 64 << 10;
const HEAP: (i64, i64) = (64 << 10, 64);

fn needs(cx: &mut Ctx) {
    crate::alloc::watch_stack(true);
    super::pure::LONG.with(|l| l.set(true));
    let mut deepest: std::collections::BTreeMap<&'static str, (usize, i64)> = Default::default();
    for k in 0..cx.n(12) {
        if cx.stop() {
            break;
        }
        let mut cases = round(&mut cx.rng);
        if k == 0 {
            let n = 200_000 + cx.rng.below(1000);
            cases.extend(super::pure::valid_texts(n));
        }
        for c in cases {
            let ok = (c.run)().is_ok();
            let l = left();
            if !ok {
                cx.ev("refused: not judged");
                continue;
            }
            let v = c.volume();
            let d = deepest.entry(c.name).or_default();
            *d = (d.0.max(l.stack), d.1.max(l.peak));
            cx.eval(hashes(&[hash_str(&c.describe()), 39]), l.stack > 0);
            cx.ev(match v {
                0..=255 => "arguments of up to 255 bytes",
                256..=4095 => "arguments of up to 4095 bytes",
                _ => "arguments of 4096 bytes and more",
            });
            if l.peak > 0 {
                cx.ev("heap memory was in use");
            }
            let show = || c.describe().chars().take(300).collect::<String>();
            cx.check(l.stack <= STACK, c.name, || format!("{}: needs {} bytes of stack{} for {v} bytes of arguments", show(), l.stack, if l.stack >= crate::alloc::WINDOW { " or more" } else { "" }));
            cx.check(l.peak <= HEAP.0 + HEAP.1 * v as i64, c.name, || format!("{}: needs {} bytes of heap memory at the same time for {v} bytes of arguments", show(), l.peak));
        }
    }
    super::pure::LONG.with(|l| l.set(false));
    for k in 0..40 {
        if call("TIME", &[], || unsafe { ffi::TIME() }).is_ok() {
            let l = left();
            cx.eval(hashes(&[cx.chunk as u64, k, 43]), l.stack > 0);
            cx.check(l.stack <= STACK, "TIME", || format!("TIME() needs {} bytes of stack", l.stack));
            cx.check(l.peak <= HEAP.0, "TIME", || format!("TIME() needs {} bytes of heap memory at the same time", l.peak));
        }
    }
    if cx.chunk == 0 {
        let s = deepest.iter().max_by_key(|d| d.1 .0);
        let h = deepest.iter().max_by_key(|d| d.1 .1);
        if let (Some(s), Some(h)) = (s, h) {
            let t = format!("most stack: {} with {} bytes; most heap memory: {} with {} bytes", s.0, s.1 .0, h.0, h.1 .1);
            cx.sample(|| t);
        }
    }
    crate::alloc::watch_stack(false);
}
fn block_needs(cx: &mut Ctx) {
    crate::alloc::watch_stack(true);
    let mut ev = vec![];
    for b in &all_blocks() {
        if cx.stop() {
            break;
        }
        let g = fb::Inst::new(b.l);
        let mut m = Model::new();
        let mut i = In::default();
        clock::on(1 << 40, 1_700_000_000_000_000_000);
        let (mut stack, mut peak) = (0, 0);
        for k in 0..cx.n(100).max(50) {
            clock::advance(cx.rng.range(0, 12_000_000) as i128);
            i = any_inputs(&mut cx.rng, b, &m, &i);
            ev.clear();
            if scan(b, &mut m, g.ptr(), &i, &mut ev).is_ok() {
                stack = stack.max(left().stack);
                peak = peak.max(left().peak);
                cx.eval(hashes(&[cx.chunk as u64, 40, k as u64, hash_str(b.name)]), true);
            }
        }
        clock::off();
        cx.ev("block watched");
        cx.check(stack <= STACK, b.name, || format!("{}: needs {stack} bytes of stack", b.name));
        cx.check(peak <= HEAP.0, b.name, || format!("{}: needs {peak} bytes of heap memory at the same time", b.name));
    }
    crate::alloc::watch_stack(false);
}
pub fn c39(o: Opts) -> ! {
    fb::load(&o.st_dir);
    run(o, vec![unit("calls", 16, needs), unit("blocks", 4, block_needs)], &["arguments of up to 255 bytes", "arguments of up to 4095 bytes", "arguments of 4096 bytes and more", "heap memory was in use", "block watched"])
}

pub fn c36(o: Opts) -> ! {
    fb::load(&o.st_dir);
    if std::env::var_os("NOCAPTURE").is_none() {
        capture();
    }
    let mut units = vec![unit("memory", 24, memory), unit("settles", 8, settles), unit("blocks", 8, blocks)];
    // alone in the process
    units.push(unit("process", 1, process_state));
    run(
        o,
        units,
        &["memory was taken in the call", "no memory was taken", "function watched with changing arguments", "block watched", "process compared", "refused: not judged", "LEN__STRING"][..6],
    )
}
