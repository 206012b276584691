//! C40: the time of a call is bounded by the size of its arguments; no call waits.
use super::fbs::{all_blocks, any_inputs, scan, In, Model};
use super::pure::{round, valid_texts, Case, LONG, TIMES};
use crate::call::{TIMED, TOOK};
use crate::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

/// CPU time: a fixed part and a part per byte of the arguments (nanoseconds), some fifty times what is needed.
const FIXED: i64 = 2_000_000;
const PER_BYTE: i64 = 500;
/// unoptimized code
const SLOW: i64 = if cfg!(debug_assertions) { 20 } else { 1 };
/// time without CPU: whoever is not waiting is preempted at times, but not in each of the attempts
const WAIT: i64 = 500_000;
const ATTEMPTS: usize = 20;

fn bound(volume: usize) -> i64 {
    (FIXED + PER_BYTE * volume as i64) * SLOW
}
/// (CPU, time beyond it if it waited) of the last call
fn took() -> (i64, i64) {
    let (wall, cpu, waited) = TOOK.with(|t| t.get());
    // preempted by others otherwise
    (cpu, if waited > 0 { wall - cpu } else { 0 })
}
fn waits(cpu: i64, rest: i64) -> bool {
    rest > WAIT + 20 * cpu
}
/// What is wrong with a call in each of many attempts.
fn slow(volume: usize, again: &mut dyn FnMut() -> Option<(i64, i64)>) -> Option<String> {
    let (mut cpu, mut rest, mut waited) = (i64::MAX, i64::MAX, true);
    let begin = clock::real_ns(1);
    for k in 0..ATTEMPTS {
        // far from the bound: some attempts suffice
        if k >= 5 && clock::real_ns(1) - begin > 5_000_000_000 {
            break;
        }
        let (c, r) = again()?;
        cpu = cpu.min(c);
        rest = rest.min(r);
        waited &= waits(c, r);
        if cpu <= bound(volume) && !waited {
            return None;
        }
    }
    Some(if cpu > bound(volume) {
        format!("at least {:.1} ms of CPU time for {volume} bytes of arguments (at most {:.1} ms expected)", cpu as f64 / 1e6, bound(volume) as f64 / 1e6)
    } else {
        format!("waits for at least {:.2} ms each time, while it needs {:.3} ms of CPU time", rest as f64 / 1e6, cpu as f64 / 1e6)
    })
}
fn product(c: &Case) -> bool {
    c.name.starts_with("FIND__")
}

/// slow functions so far; a few are enough
static FOUND: AtomicU64 = AtomicU64::new(0);

fn calls(cx: &mut Ctx) {
    TIMED.with(|t| t.set(true));
    LONG.with(|l| l.set(true));
    let mut reported: BTreeSet<&'static str> = Default::default();
    let mut most: (i64, String) = (0, String::new());
    for k in 0..cx.n(24) {
        if cx.stop() {
            break;
        }
        TIMES.with(|t| t.set(if cfg!(debug_assertions) { 1 } else { [1, 3, 5][k % 3] }));
        let mut cases = round(&mut cx.rng);
        if k < 2 {
            let n = [50_000, 300_000][k] / SLOW as usize + cx.rng.below(5);
            cases.extend(valid_texts(n));
        }
        for c in cases {
            if FOUND.load(SeqCst) > 4 {
                break;
            }
            if reported.contains(c.name) {
                continue;
            }
            if (c.run)().is_err() {
                cx.ev("refused: not judged");
                continue;
            }
            let v = c.volume();
            let (cpu, rest) = took();
            cx.eval(hashes(&[hash_str(&c.describe()), 40]), v > 255 || cpu > 0);
            cx.ev(match v {
                0..=255 => "arguments of up to 255 bytes",
                256..=4095 => "arguments of up to 4095 bytes",
                4096..=65535 => "arguments of up to 65535 bytes",
                _ => "arguments of 65536 bytes and more",
            });
            // the time FIND needs depends on the product of the lengths
            if product(&c) && cpu > bound(v) {
                continue;
            }
            let share = cpu * 1000 / bound(v);
            if share > most.0 && cpu <= bound(v) {
                most = (share, format!("{} needs {cpu} ns for {v} bytes of arguments", c.name));
            }
            if cpu > bound(v) || waits(cpu, rest) {
                cx.ev("measured again");
                if let Some(t) = slow(v, &mut || (c.run)().is_ok().then(took)) {
                    reported.insert(c.name);
                    FOUND.fetch_add(1, SeqCst);
                    cx.violation(c.name, || format!("{}: {t}", c.describe().chars().take(300).collect::<String>()));
                }
            }
        }
    }
    for k in 0..200 {
        if call("TIME", &[], || unsafe { ffi::TIME() }).is_err() {
            continue;
        }
        let (cpu, rest) = took();
        cx.eval(hashes(&[cx.chunk as u64, k, 42]), true);
        // the first call reads the rules of the time zone
        if cpu > 10 * bound(0) || waits(cpu, rest) {
            if let Some(t) = slow(0, &mut || call("TIME", &[], || unsafe { ffi::TIME() }).is_ok().then(took)) {
                cx.violation("TIME", || format!("TIME(): {t}"));
                break;
            }
        }
    }
    if cx.chunk == 0 {
        cx.sample(|| format!("closest to its bound ({} per mille of it): {}", most.0, most.1));
    }
    TIMES.with(|t| t.set(1));
    LONG.with(|l| l.set(false));
    TIMED.with(|t| t.set(false));
}

/// (CPU, waiting) of each scan of a history. Given the seed the same history each time, also of the clock.
fn history(b: &super::fbs::Blk, seed: u64, n: usize) -> Vec<Option<(i64, i64)>> {
    let mut r = Rng::new(seed);
    let g = fb::Inst::new(b.l);
    let mut m = Model::new();
    let mut i = In::default();
    let mut ev = vec![];
    clock::on(1 << 40, 1_700_000_000_000_000_000);
    let mut all = vec![];
    for _ in 0..n {
        // also long after the last scan
        let step = match r.below(50) {
            0 => r.range(0, 1 << 55),
            1..=9 => r.range(0, 1_000_000),
            _ => r.range(0, 12_000_000),
        };
        clock::advance(step as i128);
        i = any_inputs(&mut r, b, &m, &i);
        ev.clear();
        all.push(scan(b, &mut m, g.ptr(), &i, &mut ev).is_ok().then(took));
    }
    clock::off();
    all
}
fn blocks(cx: &mut Ctx) {
    TIMED.with(|t| t.set(true));
    let n = cx.n(400).max(200);
    let over = |s: &Option<(i64, i64)>| s.is_some_and(|(cpu, rest)| cpu > FIXED * SLOW / 4 || waits(cpu, rest));
    for b in &all_blocks() {
        if cx.stop() {
            break;
        }
        let seed = cx.rng.next();
        let mut least = history(b, seed, n);
        for (k, s) in least.iter().enumerate() {
            match s {
                Some(_) => cx.eval(hashes(&[cx.chunk as u64, 41, k as u64, hash_str(b.name)]), true),
                None => cx.ev("refused: not judged"),
            }
        }
        for _ in 0..ATTEMPTS / 2 {
            if !least.iter().any(over) {
                break;
            }
            cx.ev("measured again");
            for (l, s) in least.iter_mut().zip(history(b, seed, n)) {
                if let (Some(l), Some(s)) = (l, s) {
                    *l = (l.0.min(s.0), l.1.min(s.1));
                }
            }
        }
        cx.ev("block watched");
        let bad = least.iter().position(over);
        cx.check(bad.is_none(), b.name, || {
            let (cpu, rest) = least[bad.unwrap()].unwrap();
            format!("{}: whenever this history is repeated, scan {} of it needs {:.3} ms of CPU time and waits for {:.3} ms", b.name, bad.unwrap(), cpu as f64 / 1e6, rest as f64 / 1e6)
        });
    }
    TIMED.with(|t| t.set(false));
}

const TRIES: u64 = 200;
const LEAST: u64 = 40;
/// short calls within a long one; some may end before it takes a lock or after that
const ENOUGH: u64 = 10;
/// Short calls make progress while another thread is in a long call of the same function.
fn beside(cx: &mut Ctx) {
    if FOUND.load(SeqCst) > 0 {
        return;
    }
    let scale = if cfg!(debug_assertions) { 4 } else { 40 };
    LONG.with(|l| l.set(true));
    TIMES.with(|t| t.set(scale));
    TIMED.with(|t| t.set(true));
    let mut long: BTreeMap<&'static str, (i64, Case)> = Default::default();
    let mut cases = valid_texts(if cfg!(debug_assertions) { 100_000 } else { 1_000_000 });
    for _ in 0..cx.n(2).clamp(2, 8) {
        cases.extend(round(&mut cx.rng));
    }
    for c in cases {
        if c.volume() < 20_000 || (c.run)().is_err() {
            continue;
        }
        let cpu = took().0;
        if cpu > long.get(c.name).map_or(300_000, |l| l.0) && cpu < 200_000_000 {
            long.insert(c.name, (cpu, c));
        }
    }
    LONG.with(|l| l.set(false));
    TIMES.with(|t| t.set(1));
    let mut short: BTreeMap<&'static str, Case> = Default::default();
    for k in 0..8 {
        let mut cases = round(&mut cx.rng);
        if k == 0 {
            cases.extend(valid_texts(8));
        }
        for c in cases {
            if c.volume() < 300 && long.contains_key(c.name) && !short.contains_key(c.name) && (c.run)().is_ok() {
                short.insert(c.name, c);
            }
        }
    }
    TIMED.with(|t| t.set(false));
    for (name, (cpu, l)) in &long {
        let Some(s) = short.get(name) else { continue };
        if cx.stop() {
            break;
        }
        // odd: the long call is running
        let (seq, end) = (AtomicU64::new(0), AtomicBool::new(false));
        // short calls which began and ended in the same long call
        let within = AtomicU64::new(0);
        // short calls which waited, and which used processor time for it
        let (blocked, burnt) = (AtomicU64::new(0), AtomicU64::new(0));
        let mut best = 0;
        let mut tries = 0;
        std::thread::scope(|sc| {
            sc.spawn(|| {
                crate::call::install_alt_stack();
                TIMED.with(|t| t.set(true));
                let usual = (0..5).map(|_| { let _ = (s.run)(); took().0 }).min().unwrap();
                while !end.load(SeqCst) {
                    let at = seq.load(SeqCst);
                    let _ = (s.run)();
                    if at % 2 == 1 && seq.load(SeqCst) == at {
                        within.fetch_add(1, SeqCst);
                    }
                    let (_, cpu, waited) = TOOK.with(|t| t.get());
                    if at % 2 == 1 {
                        blocked.fetch_add((waited > 0) as u64, SeqCst);
                        burnt.fetch_add((cpu > 50_000 + 50 * usual) as u64, SeqCst);
                    }
                }
                crate::call::flush_counters();
            });
            while tries < LEAST || (tries < TRIES && best < ENOUGH) {
                // the other thread has to be running, on another processor
                if tries % 2 == 0 {
                    std::thread::sleep(std::time::Duration::from_micros(50 << (tries % 12 / 2)));
                } else {
                    let t = clock::real_ns(1);
                    while clock::real_ns(1) - t < 200_000 {
                        std::hint::spin_loop();
                    }
                }
                within.store(0, SeqCst);
                seq.fetch_add(1, SeqCst);
                let _ = (l.run)();
                seq.fetch_add(1, SeqCst);
                best = best.max(within.load(SeqCst));
                tries += 1;
                cx.eval(hashes(&[hash_str(name), tries, best]), best > 0);
            }
            end.store(true, SeqCst);
        });
        cx.ev(name);
        cx.ev("short calls beside a long one");
        let (blocked, burnt) = (blocked.into_inner(), burnt.into_inner());
        // calls which wait at times only: for a part of the long one
        let waits = blocked >= 15 || (best < ENOUGH && blocked + burnt >= 5);
        cx.ev(if waits { "blocked" } else if best >= ENOUGH { "calls ran at the same time" } else { "not judged: the processors were busy" });
        cx.check(!waits, name, || format!("{name}: while another thread was in calls of the same function of {:.1} ms each, {blocked} short calls had to wait and {burnt} used much processor time; at most {best} ended during the same long call ({tries} of them)", *cpu as f64 / 1e6));
        if cx.rng.one_in(10) {
            cx.sample(|| format!("{name}: {best} short calls in another thread began and ended during one of {:.1} ms", *cpu as f64 / 1e6));
        }
    }
}

pub fn c40(o: Opts) -> ! {
    fb::load(&o.st_dir);
    run(
        o,
        vec![unit("calls", 16, calls), unit("blocks", 8, blocks), unit("beside", 2, beside)],
        &["arguments of up to 255 bytes", "arguments of up to 4095 bytes", "arguments of up to 65535 bytes", "block watched", "short calls beside a long one"],
    )
}
