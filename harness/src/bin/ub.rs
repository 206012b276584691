//! A small workload for the undefined-behaviour interpreter (Miri) and the race detector (TSan): no rejected calls, no guard
//! pages, no virtual clock; the calls are the same ones as in the monitors of C30.
//!   ub select <seed> <rounds>            (native) prints the cases which are not rejected
//!   ub cases <seed> <rounds> <file>      (sanitizer) makes the selected calls, then again from two threads
//!   ub blocks <seed> <steps> <st dir>    (sanitizer) calls instances of exactly the declared size, from several threads
use iec61131std as _;
use rt::p::pure::{round, Case};
use rt::Rng;

/// Rust ABI in the library: not callable through their C declarations here.
fn foreign(n: &str) -> bool {
    ["SHL__", "SHR__", "ROL__", "ROR__", "TO_BIG_", "TO_LITTLE_", "FROM_BIG_", "FROM_LITTLE_"].iter().any(|p| n.starts_with(p))
}
fn cases(seed: u64, rounds: usize) -> Vec<Case> {
    let mut r = Rng::new(seed);
    (0..rounds).flat_map(|_| round(&mut r)).collect()
}

/// Memory of exactly the declared size.
struct Inst(*mut u8, &'static rt::fb::Layout);
unsafe impl Send for Inst {}
impl Inst {
    fn layout(l: &rt::fb::Layout) -> std::alloc::Layout {
        std::alloc::Layout::from_size_align(l.size, l.align).unwrap()
    }
    fn new(l: &'static rt::fb::Layout) -> Inst {
        Inst(unsafe { std::alloc::alloc_zeroed(Self::layout(l)) }, l)
    }
    fn scan(&self, r: &mut Rng, f: rt::ffi::Block) {
        for x in self.1.fields.iter().filter(|x| x.kind == rt::fb::Kind::In) {
            let bytes = if x.ty == "BOOL" { vec![r.coin() as u8] } else { r.range(0, 3).to_le_bytes()[..x.size].to_vec() };
            unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.0.add(x.off), x.size) };
        }
        unsafe { f(self.0) };
    }
}
impl Drop for Inst {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.0, Self::layout(self.1)) };
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "select" => {
            std::panic::set_hook(Box::new(|_| {}));
            let list: Vec<String> = cases(num(2), num(3) as usize)
                .iter()
                .enumerate()
                .filter(|(_, c)| !foreign(c.name) && (c.run)().is_ok())
                .map(|(i, _)| i.to_string())
                .collect();
            println!("{}", list.join(" "));
        }
        "cases" => {
            let pick: Vec<usize> = std::fs::read_to_string(&a[4]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
            let all = cases(num(2), num(3) as usize);
            let mut n = 0;
            for k in &pick {
                eprintln!("call {k} {}", all[*k].describe());
                n += 1;
                let _ = (all[*k].run)();
            }
            eprintln!("calls of two threads");
            let half = pick.len() / 2;
            // results are not compared: Miri adds random rounding errors to floating point functions
            let (all, pick) = (&all, &pick);
            let (threads, reps) = if cfg!(miri) { (2, 1) } else { (4, 20) };
            n += threads * reps * pick.len();
            std::thread::scope(|s| {
                for t in 0..threads {
                    s.spawn(move || {
                        for j in 0..pick.len() * reps {
                            // alike in the first rounds, different functions later
                            let k = (j + t * half * (j / pick.len())) % pick.len();
                            let _ = (all[pick[k]].run)();
                        }
                    });
                }
            });
            println!("DONE {n}");
        }
        "blocks" => {
            rt::fb::load(&a[4]);
            let (threads, steps) = (if cfg!(miri) { 2 } else { 4 }, num(3));
            let seed = num(2);
            let n = std::sync::atomic::AtomicU64::new(0);
            // an instance per thread and one which goes from thread to thread
            for (name, f) in rt::ffi::BLOCKS {
                let l = rt::fb::layout(name);
                eprintln!("instances of {name}");
                let shared = std::sync::Mutex::new(Inst::new(l));
                let (shared, n) = (&shared, &n);
                std::thread::scope(|s| {
                    for t in 0..threads {
                        s.spawn(move || {
                            let mut r = Rng::new(seed + t);
                            let own = Inst::new(l);
                            for _ in 0..steps {
                                if r.coin() {
                                    own.scan(&mut r, *f)
                                } else {
                                    shared.lock().unwrap().scan(&mut r, *f)
                                }
                                n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            }
                        });
                    }
                });
            }
            println!("DONE {}", n.load(std::sync::atomic::Ordering::Relaxed));
        }
        _ => std::process::exit(2),
    }
}
