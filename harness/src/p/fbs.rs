//! C18 - C23: function blocks. Every instance is driven scan by scan, next to a model that is fed
//! with the same inputs and the same virtual clock.
use crate::clock;
use crate::fb::{self, Inst, Kind, Layout};
use crate::ffi::*;
use crate::*;
use std::sync::Mutex;

type F = unsafe extern "C-unwind" fn(*mut u8);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    I16,
    I32,
    I64,
    U32,
    U64,
}
impl Ty {
    fn min(self) -> i128 {
        match self {
            Ty::I16 => i16::MIN as i128,
            Ty::I32 => i32::MIN as i128,
            Ty::I64 => i64::MIN as i128,
            _ => 0,
        }
    }
    fn max(self) -> i128 {
        match self {
            Ty::I16 => i16::MAX as i128,
            Ty::I32 => i32::MAX as i128,
            Ty::I64 => i64::MAX as i128,
            Ty::U32 => u32::MAX as i128,
            Ty::U64 => u64::MAX as i128,
        }
    }
    unsafe fn get(self, p: *const u8) -> i128 {
        match self {
            Ty::I16 => (p as *const i16).read_unaligned() as i128,
            Ty::I32 => (p as *const i32).read_unaligned() as i128,
            Ty::I64 => (p as *const i64).read_unaligned() as i128,
            Ty::U32 => (p as *const u32).read_unaligned() as i128,
            Ty::U64 => (p as *const u64).read_unaligned() as i128,
        }
    }
    unsafe fn put(self, p: *mut u8, v: i128) {
        match self {
            Ty::I16 => (p as *mut i16).write_unaligned(v as i16),
            Ty::I32 => (p as *mut i32).write_unaligned(v as i32),
            Ty::I64 => (p as *mut i64).write_unaligned(v as i64),
            Ty::U32 => (p as *mut u32).write_unaligned(v as u32),
            Ty::U64 => (p as *mut u64).write_unaligned(v as u64),
        }
    }
}
fn ty_of(st: &str) -> Ty {
    match st {
        "INT" => Ty::I16,
        "DINT" => Ty::I32,
        "LINT" => Ty::I64,
        "UDINT" => Ty::U32,
        "ULINT" => Ty::U64,
        t => panic!("unexpected counter type {t}"),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Ctu,
    Ctd,
    Ctud,
    Tp,
    Ton,
    Tof,
    RTrig,
    FTrig,
    Sr,
    Rs,
}

pub struct Blk {
    pub name: &'static str,
    pub f: F,
    pub w: What,
    pub l: &'static Layout,
    pub ty: Ty,
    off: Offs,
}
#[derive(Default, Clone, Copy)]
struct Offs {
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    pv: usize,
    q: usize,
    q2: usize,
    cv: usize,
}

fn blk(name: &'static str, f: F, w: What, ty: Ty) -> Blk {
    let l = fb::layout(name);
    let mut o = Offs::default();
    match w {
        What::Ctu => {
            o.a = l.off("CU");
            o.b = l.off("R");
        }
        What::Ctd => {
            o.a = l.off("CD");
            o.b = l.off("LD");
        }
        What::Ctud => {
            o.a = l.off("CU");
            o.b = l.off("CD");
            o.c = l.off("R");
            o.d = l.off("LD");
        }
        What::Tp | What::Ton | What::Tof => {
            o.a = l.off("IN");
            o.pv = l.off("PT");
            o.q = l.off("Q");
            o.cv = l.off("ET");
        }
        What::RTrig | What::FTrig => {
            o.a = l.off("CLK");
            o.q = l.off("Q");
        }
        What::Sr => {
            o.a = l.off("SET1");
            o.b = l.off("RESET");
            o.q = l.off("Q1");
        }
        What::Rs => {
            o.a = l.off("SET");
            o.b = l.off("RESET1");
            o.q = l.off("Q1");
        }
    }
    match w {
        What::Ctu | What::Ctd => {
            o.pv = l.off("PV");
            o.cv = l.off("CV");
            o.q = l.off("Q");
            assert_eq!(ty_of(&l.field("PV").ty), ty, "{name}");
            assert_eq!(ty_of(&l.field("CV").ty), ty, "{name}");
        }
        What::Ctud => {
            o.pv = l.off("PV");
            o.cv = l.off("CV");
            o.q = l.off("QU");
            o.q2 = l.off("QD");
            assert_eq!(ty_of(&l.field("PV").ty), ty, "{name}");
            assert_eq!(ty_of(&l.field("CV").ty), ty, "{name}");
        }
        _ => {}
    }
    Blk { name, f, w, l, ty, off: o }
}

pub fn counters() -> Vec<Blk> {
    use Ty::*;
    use What::*;
    vec![
        blk("CTU", CTU, Ctu, I16),
        blk("CTU_INT", CTU_INT, Ctu, I16),
        blk("CTU_DINT", CTU_DINT, Ctu, I32),
        blk("CTU_UDINT", CTU_UDINT, Ctu, U32),
        blk("CTU_LINT", CTU_LINT, Ctu, I64),
        blk("CTU_ULINT", CTU_ULINT, Ctu, U64),
        blk("CTD", CTD, Ctd, I16),
        blk("CTD_INT", CTD_INT, Ctd, I16),
        blk("CTD_DINT", CTD_DINT, Ctd, I32),
        blk("CTD_UDINT", CTD_UDINT, Ctd, U32),
        blk("CTD_LINT", CTD_LINT, Ctd, I64),
        blk("CTD_ULINT", CTD_ULINT, Ctd, U64),
        blk("CTUD", CTUD, Ctud, I16),
        blk("CTUD_INT", CTUD_INT, Ctud, I16),
        blk("CTUD_DINT", CTUD_DINT, Ctud, I32),
        blk("CTUD_UDINT", CTUD_UDINT, Ctud, U32),
        blk("CTUD_LINT", CTUD_LINT, Ctud, I64),
        blk("CTUD_ULINT", CTUD_ULINT, Ctud, U64),
    ]
}
pub fn timers(w: What) -> Vec<Blk> {
    match w {
        What::Tp => vec![blk("TP", TP, w, Ty::I64), blk("TP_TIME", TP_TIME, w, Ty::I64), blk("TP_LTIME", TP_LTIME, w, Ty::I64)],
        What::Ton => vec![blk("TON", TON, w, Ty::I64), blk("TON_TIME", TON_TIME, w, Ty::I64), blk("TON_LTIME", TON_LTIME, w, Ty::I64)],
        _ => vec![blk("TOF", TOF, w, Ty::I64), blk("TOF_TIME", TOF_TIME, w, Ty::I64), blk("TOF_LTIME", TOF_LTIME, w, Ty::I64)],
    }
}
pub fn logic() -> Vec<Blk> {
    use What::*;
    vec![blk("R_TRIG", R_TRIG, RTrig, Ty::I64), blk("F_TRIG", F_TRIG, FTrig, Ty::I64), blk("SR", SR, Sr, Ty::I64), blk("RS", RS, Rs, Ty::I64)]
}
pub fn all_blocks() -> Vec<Blk> {
    let mut v = counters();
    v.extend(timers(What::Tp));
    v.extend(timers(What::Ton));
    v.extend(timers(What::Tof));
    v.extend(logic());
    v
}

// ------------------------------------------------------------------------------------------ models

/// A possible state of a timer: the clock is only known to have been read within an interval.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct TState {
    prev: bool,
    /// interval of the point in time of the start
    run: Option<(i128, i128)>,
}

#[derive(Clone)]
pub struct Model {
    prev: bool,
    prev2: bool,
    cv: i128,
    q: bool,
    hyp: Vec<TState>,
}
impl Model {
    pub fn new() -> Model {
        Model { prev: false, prev2: false, cv: 0, q: false, hyp: vec![TState { prev: false, run: None }] }
    }
    pub fn idle(&self) -> bool {
        self.hyp.iter().all(|h| h.run.is_none())
    }
    /// A possible start time
    fn start(&self) -> Option<i128> {
        self.hyp.iter().find_map(|h| h.run).map(|r| r.1)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct In {
    pub a: bool,
    pub b: bool,
    pub c: bool,
    pub d: bool,
    pub pv: i128,
}

/// One outcome: Q, range of ET, following state
type Out = (bool, i128, i128, TState);

fn timer_step(w: What, h: TState, i: &In, t0: i128, t1: i128, out: &mut Vec<Out>) {
    let pt = i.pv;
    let rising = i.a && !h.prev;
    let falling = !i.a && h.prev;
    let el = h.run.map(|(lo, hi)| ((t0 - hi).max(0), t1 - lo));
    let st = |run| TState { prev: i.a, run };
    let started = Some((t0, t1));
    // elapsed time within / beyond the preset time, with the start times for which this is so
    let within = h.run.and_then(|(lo, hi)| {
        let lo = lo.max(t0 - pt);
        (el.unwrap().0 <= pt).then(|| (lo.min(hi), hi))
    });
    let beyond = h.run.and_then(|(lo, hi)| {
        let hi = hi.min(t1 - pt - 1);
        (el.unwrap().1 > pt).then(|| (lo, hi.max(lo)))
    });
    match w {
        What::Tp => {
            if h.run.is_some() {
                let (elo, ehi) = el.unwrap();
                if let Some(r) = within {
                    out.push((true, elo, pt.min(ehi), st(Some(r))));
                }
                if let Some(r) = beyond {
                    if rising {
                        out.push((true, 0, 0, st(started)));
                    } else if i.a {
                        out.push((false, pt, pt, st(Some(r))));
                    } else {
                        out.push((false, 0, 0, st(None)));
                    }
                }
            } else if rising {
                out.push((true, 0, 0, st(started)));
            } else {
                out.push((false, 0, 0, st(None)));
            }
        }
        What::Ton => {
            if !i.a {
                out.push((false, 0, 0, st(None)));
            } else if h.run.is_none() {
                out.push((false, 0, 0, st(started)));
            } else {
                let (elo, ehi) = el.unwrap();
                if let Some(r) = within {
                    out.push((false, elo, pt.min(ehi), st(Some(r))));
                }
                if let Some(r) = beyond {
                    out.push((true, pt, pt, st(Some(r))));
                }
            }
        }
        _ => {
            if i.a {
                out.push((true, 0, 0, st(None)));
            } else if falling {
                out.push((true, 0, 0, st(started)));
            } else if h.run.is_none() {
                out.push((false, 0, 0, st(None)));
            } else {
                let (elo, ehi) = el.unwrap();
                if let Some(r) = within {
                    out.push((true, elo, pt.min(ehi), st(Some(r))));
                }
                if let Some(r) = beyond {
                    out.push((false, pt, pt, st(Some(r))));
                }
            }
        }
    }
}

/// Calls the instance at `p` with the inputs `i`, and compares its outputs to the model.
/// Returns a description of a difference.
pub fn scan(b: &Blk, m: &mut Model, p: *mut u8, i: &In, ev: &mut Vec<&'static str>) -> Result<(), String> {
    let o = &b.off;
    unsafe {
        let setb = |off: usize, v: bool| *p.add(off) = v as u8;
        let getb = |off: usize| *p.add(off);
        let before: Vec<u8>;
        match b.w {
            What::Ctu | What::Ctd => {
                setb(o.a, i.a);
                setb(o.b, i.b);
                b.ty.put(p.add(o.pv), i.pv);
            }
            What::Ctud => {
                setb(o.a, i.a);
                setb(o.b, i.b);
                setb(o.c, i.c);
                setb(o.d, i.d);
                b.ty.put(p.add(o.pv), i.pv);
            }
            What::Tp | What::Ton | What::Tof => {
                setb(o.a, i.a);
                b.ty.put(p.add(o.pv), i.pv);
            }
            What::RTrig | What::FTrig => setb(o.a, i.a),
            What::Sr | What::Rs => {
                setb(o.a, i.a);
                setb(o.b, i.b);
            }
        }
        before = std::slice::from_raw_parts(p, b.l.size).to_vec();
        let t0 = clock::now();
        let r = call(b.name, &[i.a as u64, i.b as u64, i.c as u64, i.d as u64, i.pv as u64], || (b.f)(p));
        let t1 = clock::now();
        if r.is_err() {
            return Err("the call panicked".into());
        }
        for f in &b.l.fields {
            if f.kind == Kind::In && before[f.off..f.off + f.size] != *std::slice::from_raw_parts(p.add(f.off), f.size) {
                return Err(format!("the input {} was modified", f.name));
            }
        }
        let bit = |off: usize| -> Result<bool, String> {
            match getb(off) {
                0 => Ok(false),
                1 => Ok(true),
                v => Err(format!("a BOOL output has the value {v}")),
            }
        };
        match b.w {
            What::Ctu => {
                if i.b {
                    m.cv = 0;
                    ev.push("reset");
                } else {
                    if i.a && !m.prev {
                        if m.cv < b.ty.max() {
                            m.cv += 1;
                            ev.push("counted up");
                        } else {
                            ev.push("count at the upper limit");
                        }
                    }
                    m.prev = i.a;
                }
                let (q, cv) = (bit(o.q)?, b.ty.get(p.add(o.cv)));
                if (q, cv) != (m.cv >= i.pv, m.cv) {
                    return Err(format!("Q = {q}, CV = {cv}, expected Q = {}, CV = {}", m.cv >= i.pv, m.cv));
                }
                if q {
                    ev.push("limit reached")
                }
            }
            What::Ctd => {
                if i.b {
                    m.cv = i.pv;
                    ev.push("load");
                } else {
                    if i.a && !m.prev {
                        if m.cv > b.ty.min() {
                            m.cv -= 1;
                            ev.push("counted down");
                        } else {
                            ev.push("count at the lower limit");
                        }
                    }
                    m.prev = i.a;
                }
                let (q, cv) = (bit(o.q)?, b.ty.get(p.add(o.cv)));
                if (q, cv) != (m.cv <= 0, m.cv) {
                    return Err(format!("Q = {q}, CV = {cv}, expected Q = {}, CV = {}", m.cv <= 0, m.cv));
                }
                if q {
                    ev.push("zero reached")
                }
            }
            What::Ctud => {
                if i.c {
                    m.cv = 0;
                    ev.push(if i.d { "reset while loading" } else { "reset" });
                } else if i.d {
                    m.cv = i.pv;
                    ev.push("load");
                } else {
                    let u = i.a && !m.prev;
                    let d = i.b && !m.prev2;
                    m.prev = i.a;
                    m.prev2 = i.b;
                    if u && d {
                        ev.push("both edges");
                    } else if u {
                        if m.cv < b.ty.max() {
                            m.cv += 1;
                            ev.push("counted up");
                        } else {
                            ev.push("count at the upper limit");
                        }
                    } else if d {
                        if m.cv > b.ty.min() {
                            m.cv -= 1;
                            ev.push("counted down");
                        } else {
                            ev.push("count at the lower limit");
                        }
                    }
                }
                let (qu, qd, cv) = (bit(o.q)?, bit(o.q2)?, b.ty.get(p.add(o.cv)));
                let want = (m.cv >= i.pv, m.cv <= 0, m.cv);
                if (qu, qd, cv) != want {
                    return Err(format!("QU = {qu}, QD = {qd}, CV = {cv}, expected QU = {}, QD = {}, CV = {}", want.0, want.1, want.2));
                }
            }
            What::Tp | What::Ton | What::Tof => {
                let (q, et) = (bit(o.q)?, b.ty.get(p.add(o.cv)));
                let mut outs = vec![];
                for h in &m.hyp {
                    timer_step(b.w, *h, i, t0, t1, &mut outs);
                }
                let mut next: Vec<TState> = vec![];
                for x in &outs {
                    if x.0 == q && x.1 <= et && et <= x.2 && !next.contains(&x.3) {
                        next.push(x.3);
                    }
                }
                if next.is_empty() {
                    let want: Vec<String> = outs
                        .iter()
                        .map(|x| if x.1 == x.2 { format!("Q = {}, ET = {}", x.0, x.1) } else { format!("Q = {}, ET = {}..{}", x.0, x.1, x.2) })
                        .collect();
                    return Err(format!("Q = {q}, ET = {et}, expected {} (t = {t0}..{t1})", want.join(" or ")));
                }
                if next.len() > 1 {
                    ev.push("ambiguous clock reading");
                }
                let was = m.hyp[0];
                let running = m.hyp[0].run.is_some();
                let started = next[0].run == Some((t0, t1)) && et == 0 && was.run != next[0].run;
                let timing = if b.w == What::Ton { !q } else { q };
                ev.push(if started {
                    if running { "started again in the scan of the timeout" } else { "started" }
                } else if running && next[0].run.is_some() {
                    if timing { "running" } else { "timeout" }
                } else if running {
                    "stopped"
                } else {
                    "idle"
                });
                if running && t0 == t1 {
                    if let Some(s) = was.run {
                        match t0 - s.1 - i.pv {
                            0 => ev.push("elapsed time equal to the preset time"),
                            1 => ev.push("one nanosecond beyond the preset time"),
                            _ => {}
                        }
                    }
                }
                if b.w == What::Tp && running && q && i.a && !was.prev {
                    ev.push("rising edge during a pulse");
                }
                m.hyp = next;
            }
            What::RTrig | What::FTrig => {
                let want = if b.w == What::RTrig { i.a && !m.prev } else { !i.a && m.prev };
                m.prev = i.a;
                let q = bit(o.q)?;
                if q != want {
                    return Err(format!("Q = {q}, expected {want}"));
                }
                ev.push(if q { "edge" } else { "no edge" });
            }
            What::Sr | What::Rs => {
                m.q = if b.w == What::Sr { i.a || (m.q && !i.b) } else { !i.b && (i.a || m.q) };
                let q = bit(o.q)?;
                if q != m.q {
                    return Err(format!("Q1 = {q}, expected {}", m.q));
                }
                ev.push(match (i.a, i.b) {
                    (true, true) => "set and reset",
                    (true, false) => "set",
                    (false, true) => "cleared",
                    _ => "latched",
                });
            }
        }
        // the outputs are up to the library; they keep their values until the next call
        Ok(())
    }
}

fn hist(b: &Blk, log: &[(In, i128)], n: usize) -> String {
    let from = log.len().saturating_sub(n);
    let mut s = format!("{} {}last scans:", b.name, if from > 0 { format!("({} scans before) ", from) } else { String::new() });
    for (i, t) in &log[from..] {
        s += &match b.w {
            What::Ctu => format!(" CU={} R={} PV={};", i.a as u8, i.b as u8, i.pv),
            What::Ctd => format!(" CD={} LD={} PV={};", i.a as u8, i.b as u8, i.pv),
            What::Ctud => format!(" CU={} CD={} R={} LD={} PV={};", i.a as u8, i.b as u8, i.c as u8, i.d as u8, i.pv),
            What::Tp | What::Ton | What::Tof => format!(" t={t} IN={} PT={};", i.a as u8, i.pv),
            What::RTrig | What::FTrig => format!(" CLK={};", i.a as u8),
            _ => format!(" S={} R={};", i.a as u8, i.b as u8),
        };
    }
    s
}

// ---------------------------------------------------------------------------------------------- C18

fn near(r: &mut gen::Rng, v: i128, ty: Ty) -> i128 {
    (v + r.range(-3, 3) as i128).clamp(ty.min(), ty.max())
}

fn counter_inputs(r: &mut gen::Rng, b: &Blk, m: &Model, last: &In, mood: usize) -> In {
    let mut i = *last;
    // edges are frequent, level holds happen
    if !r.one_in(4) {
        i.a = !i.a;
    }
    if b.w == What::Ctud {
        if r.coin() {
            i.b = !i.b;
        }
        if mood == 1 {
            i.b = i.a;
        }
        i.c = r.one_in(24) || (last.c && r.coin());
        i.d = r.one_in(12) || (last.d && r.coin());
    } else {
        i.b = r.one_in(16) || (last.b && r.coin());
    }
    if mood == 2 {
        // undisturbed counting
        i.c = false;
        i.d = false;
        if b.w != What::Ctud {
            i.b = false
        }
    }
    if r.one_in(6) {
        i.pv = match r.below(6) {
            0 => near(r, m.cv, b.ty),
            1 => near(r, b.ty.max(), b.ty),
            2 => near(r, b.ty.min(), b.ty),
            3 => near(r, 0, b.ty),
            4 => r.range(-20, 20).max(b.ty.min().max(i64::MIN as i128) as i64) as i128,
            _ => r.int().clamp(b.ty.min(), b.ty.max()),
        };
    }
    i
}

pub fn c18(o: Opts) -> ! {
    fb::load(&o.st_dir);
    let mut units = vec![
        unit("random scans", 32, |cx| {
            let bs = counters();
            let mut ev = vec![];
            for k in 0..cx.n(1200) {
                if cx.stop() {
                    return;
                }
                let b = &bs[k % bs.len()];
                let mut inst = Inst::new(b.l);
                let mut m = Model::new();
                let mut log = vec![];
                // a declaration may initialize the counter
                if cx.rng.coin() {
                    m.cv = match cx.rng.below(4) {
                        0 => near(&mut cx.rng, b.ty.max(), b.ty),
                        1 => near(&mut cx.rng, b.ty.min(), b.ty),
                        2 => near(&mut cx.rng, 0, b.ty),
                        _ => cx.rng.int().clamp(b.ty.min(), b.ty.max()),
                    };
                    unsafe { b.ty.put(inst.ptr().add(b.off.cv), m.cv) };
                }
                let init = m.cv;
                let mut i = In::default();
                let mood = cx.rng.below(3);
                let mut h = hash_str(b.name) ^ init as u64;
                for _ in 0..120 {
                    i = counter_inputs(&mut cx.rng, b, &m, &i, mood);
                    log.push((i, 0));
                    ev.clear();
                    h = hashes(&[h, i.a as u64 | (i.b as u64) << 1 | (i.c as u64) << 2 | (i.d as u64) << 3, i.pv as u64]);
                    let r = scan(b, &mut m, inst.ptr(), &i, &mut ev);
                    cx.eval(h, !ev.is_empty());
                    for e in &ev {
                        cx.ev(e);
                    }
                    if let Err(e) = r {
                        cx.violation(b.name, || format!("{e}; initial CV = {init}; {}", hist(b, &log, 12)));
                        break;
                    }
                    if !inst.g.canary_ok() {
                        cx.violation(b.name, || format!("memory in front of the instance was written; {}", hist(b, &log, 12)));
                        break;
                    }
                }
                if k < 2 {
                    cx.sample(|| format!("initial CV = {init}; {}", hist(b, &log, 8)));
                }
            }
        }),
        // all sequences of a few scans
        unit("short histories", 18, |cx| {
            let bs = counters();
            let b = &bs[cx.chunk % bs.len()];
            let mut ev = vec![];
            let bits = if b.w == What::Ctud { 4 } else { 2 };
            let pvs: &[i128] = if b.w == What::Ctud { &[1] } else { &[0, 2] };
            let sym = (1usize << bits) * pvs.len();
            let len = if b.w == What::Ctud { if cx.thorough() { 5 } else { 4 } } else if cx.thorough() { 6 } else { 5 };
            let starts = [0, b.ty.max(), b.ty.max() - 1, b.ty.min(), b.ty.min() + 1];
            let mut inst = Inst::new(b.l);
            for s in starts {
                for code in 0..sym.pow(len as u32) {
                    if cx.stop() {
                        return;
                    }
                    inst.reset();
                    let mut m = Model::new();
                    m.cv = s;
                    unsafe { b.ty.put(inst.ptr().add(b.off.cv), s) };
                    let mut c = code;
                    for step in 0..len {
                        let x = c % sym;
                        c /= sym;
                        let i = In { a: x & 1 != 0, b: x & 2 != 0, c: bits == 4 && x & 4 != 0, d: bits == 4 && x & 8 != 0, pv: pvs[x >> bits] };
                        ev.clear();
                        let r = scan(b, &mut m, inst.ptr(), &i, &mut ev);
                        if let Err(e) = r {
                            cx.violation(b.name, || format!("{e}; {} from CV = {s}, scan {step} of the input sequence {code} (base {sym}), {i:?}", b.name));
                            return;
                        }
                    }
                    cx.eval(hashes(&[hash_str(b.name), s as u64, code as u64]), true);
                    for e in &ev {
                        cx.ev(e);
                    }
                }
            }
        }),
        // a 16 bit counter counted through its whole range
        unit("whole range", 6, |cx| {
            let bs = counters();
            let b16: Vec<&Blk> = bs.iter().filter(|b| b.ty == Ty::I16).collect();
            let b = b16[cx.chunk % b16.len()];
            let mut inst = Inst::new(b.l);
            let mut m = Model::new();
            let mut ev = vec![];
            let dirs: &[bool] = if b.w == What::Ctud { &[true, false, true] } else { &[true] };
            for up in dirs {
                for k in 0..70_000u32 * 2 {
                    let x = k % 2 == 0;
                    let i = In { a: x && (*up || b.w != What::Ctud), b: x && !*up && b.w == What::Ctud, pv: 1234, ..In::default() };
                    ev.clear();
                    let r = scan(b, &mut m, inst.ptr(), &i, &mut ev);
                    cx.eval(hashes(&[hash_str(b.name), 77, *up as u64, k as u64]), x);
                    for e in &ev {
                        cx.ev(e);
                    }
                    if let Err(e) = r {
                        cx.violation(b.name, || format!("{e}; {} after {} counts (up: {up})", b.name, k / 2));
                        return;
                    }
                }
            }
            cx.ev("whole range");
        }),
    ];
    if o.tier == "thorough" {
        units.push(unit("long runs", 12, |cx| {
            // 32 bit counters: millions of edges without initialization
            let bs = counters();
            let b = bs.iter().filter(|b| b.ty != Ty::I16).nth(cx.chunk).unwrap();
            let mut inst = Inst::new(b.l);
            let mut m = Model::new();
            let mut ev = vec![];
            for k in 0..20_000_000u32 {
                let i = In { a: k % 2 == 0, pv: 9_999_999, ..In::default() };
                ev.clear();
                if let Err(e) = scan(b, &mut m, inst.ptr(), &i, &mut ev) {
                    cx.violation(b.name, || format!("{e}; {} after {} counts", b.name, k / 2));
                    return;
                }
            }
            cx.eval(hashes(&[hash_str(b.name), 78]), true);
            cx.ev("long run");
        }));
    }
    run(
        o,
        units,
        &["reset", "load", "counted up", "counted down", "count at the upper limit", "count at the lower limit", "limit reached", "zero reached", "both edges", "reset while loading", "whole range"],
    )
}

// --------------------------------------------------------------------------------------- C19 - C21

const MS: i128 = 1_000_000;

fn gen_pt(r: &mut gen::Rng) -> i128 {
    match r.below(10) {
        0 => 0,
        1 => r.range(1, 10) as i128,
        2 => r.pick(&[1i128, 999, 1_000, 999_999, MS, 1_000 * MS - 1, 1_000 * MS, 1_000 * MS + 1, 60_000 * MS, 3_600_000 * MS, 86_400_000 * MS]),
        3 => i64::MAX as i128 - r.range(0, 3) as i128,
        4 => (1i128 << r.range(0, 62)) + r.range(-1, 1) as i128,
        5 => r.range(0, i64::MAX) as i128 >> r.below(40),
        6 => r.range(1, 500) as i128 * 1_000 * MS,
        _ => r.range(1, 200) as i128 * MS,
    }
}

fn timer_run(cx: &mut Ctx, b: &Blk, inst: &mut Inst, scans: usize) -> bool {
    let mut m = Model::new();
    let mut ev = vec![];
    let mut log = vec![];
    inst.reset();
    let r = &mut cx.rng;
    let origin = match r.below(4) {
        0 => r.range(1, 1_000_000_000) as i128,
        1 => r.range(0, 1_000_000_000_000_000) as i128,
        2 => r.range(1, 100_000) as i128 * 1_000_000_000 - 1,
        _ => r.range(0, 1 << 60) as i128,
    };
    clock::on(origin, 1_700_000_000_000_000_000);
    let ticking = r.one_in(4);
    let changing = r.one_in(3);
    let mut i = In { pv: gen_pt(r), ..In::default() };
    // total virtual time is limited: the elapsed time fits into a TIME
    let budget = i64::MAX as i128 - (1 << 40);
    let hold = 1 + r.below(6);
    let mut h = hash_str(b.name);
    for k in 0..scans {
        let r = &mut cx.rng;
        if ticking {
            clock::tick(if r.coin() { r.range(0, 50) } else { r.range(0, 3_000_000) });
        }
        // time until this scan
        let dt = match m.start() {
            Some(s) if r.coin() => {
                // at or next to the end of the preset time
                let end = s + i.pv - clock::now();
                end + r.pick(&[-1, 0, 0, 1, 1, 2])
            }
            _ => match r.below(8) {
                0 => 0,
                1 => 1,
                2 => r.range(0, 20) as i128 * MS,
                3 => i.pv / (1 + r.below(8) as i128),
                4 => i.pv + r.range(-2, 2) as i128,
                5 => r.range(0, 1_000_000_000) as i128,
                6 => r.range(0, 1 << 40) as i128,
                _ => i.pv.min(1 << 50) / 16 + 1,
            },
        }
        .max(0);
        if clock::now() - origin + dt > budget {
            break;
        }
        clock::advance(dt);
        if r.one_in(5) {
            clock::step_wall(r.pick(&[3_600_000_000_000i128, -3_600_000_000_000, -86_400_000_000_000, 1_000_000, -1_000_000, 400_000_000_000_000_000]));
            ev.push("wall clock changed");
        }
        if r.one_in(hold) {
            i.a = !i.a;
        }
        // The preset time of the call counts, a change takes effect at once. What happens when it is
        // raised after a pulse or delay has ended (TP, TOF) is not specified.
        if m.idle() && (!i.a || b.w != What::Tof) && r.one_in(3) {
            i.pv = gen_pt(r);
        } else if !m.idle() && changing && r.one_in(4) {
            let pv = match (r.below(4), m.start()) {
                // around the time elapsed by now
                (0 | 1, Some(s)) => (clock::now() - s + r.pick(&[-1, 0, 0, 1, 1, 1000, MS, -1000, -MS])).max(0),
                (2, _) => i.pv / 2,
                _ => gen_pt(r),
            };
            let timing: bool = inst.get::<u8>(b.off.q) != 0;
            if pv < i.pv || timing || b.w == What::Ton {
                ev.push(if pv < i.pv { "PT lowered while running" } else { "PT raised while running" });
                i.pv = pv;
            }
        }
        log.push((i, clock::now() - origin));
        h = hashes(&[h, dt as u64, i.a as u64, i.pv as u64]);
        let res = scan(b, &mut m, inst.ptr(), &i, &mut ev);
        cx.eval(h, ev.last() != Some(&"idle"));
        for e in ev.drain(..) {
            cx.ev(e);
        }
        if ticking {
            cx.ev("clock advances during the call");
        }
        let bad = match res {
            Err(e) => Some(e),
            Ok(()) if !inst.g.canary_ok() => Some("memory in front of the instance was written".into()),
            _ => None,
        };
        if let Some(e) = bad {
            clock::off();
            cx.violation(b.name, || format!("{e}; {}", hist(b, &log, 14)));
            return false;
        }
        if k == scans - 1 && cx.n(1) > 0 {
            cx.sample(|| hist(b, &log, 8));
        }
    }
    clock::off();
    true
}

/// All input sequences of a few scans with scan times around the preset time.
fn timer_exhaustive(cx: &mut Ctx, b: &Blk) {
    let dts: [i128; 4] = [0, 4, 10, 11];
    let sym = 8usize;
    let len = if cx.thorough() { 6 } else { 5 };
    let mut inst = Inst::new(b.l);
    let mut ev = vec![];
    // preset time at first, later on, first call it is changed in
    let mut pts = vec![(0i128, 0i128, 99usize), (10, 10, 99)];
    for k in 1..len {
        pts.push((10, 3, k));
        if b.w == What::Ton {
            pts.push((3, 10, k));
        }
    }
    for (pt, then, from) in pts {
        for code in 0..sym.pow(len as u32) {
            if cx.stop() {
                return;
            }
            inst.reset();
            let mut m = Model::new();
            clock::on(5_000_000_000, 1_700_000_000_000_000_000);
            let mut c = code;
            for step in 0..len {
                let x = c % sym;
                c /= sym;
                clock::advance(dts[x >> 1]);
                let i = In { a: x & 1 != 0, pv: if step < from { pt } else { then }, ..In::default() };
                ev.clear();
                if let Err(e) = scan(b, &mut m, inst.ptr(), &i, &mut ev) {
                    clock::off();
                    cx.violation(b.name, || {
                        let mut c = code;
                        let mut s = String::new();
                        for _ in 0..=step {
                            s += &format!(" +{} ns IN={};", dts[(c % sym) >> 1], c & 1);
                            c /= sym;
                        }
                        format!("{e}; {} with PT = {pt} ns ({then} ns from scan {from} on), scans:{s}", b.name)
                    });
                    return;
                }
            }
            clock::off();
            cx.eval(hashes(&[hash_str(b.name), pt as u64, then as u64, from as u64, code as u64]), true);
            for e in &ev {
                cx.ev(e);
            }
        }
    }
}

/// Retained instances: after a restart the monotonic clock lies before the time the timer was started at.
/// Also with preset times which make no sense. No crash, ET within 0..=PT, and once the input has stopped the
/// timer (TON: FALSE, TOF: TRUE; TP: FALSE when the clock has caught up) everything is as specified.
fn timer_restarted(cx: &mut Ctx, b: &Blk) {
    let mut inst = Inst::new(b.l);
    let mut ev = vec![];
    for k in 0..cx.n(400) {
        if cx.stop() {
            return;
        }
        inst.reset();
        let mut m = Model::new();
        let up = 1i128 << cx.rng.range(20, 55);
        clock::on(up, 1_700_000_000_000_000_000);
        let mut i = In { a: true, pv: { let e = cx.rng.range(10, 50); cx.rng.range(0, 1 << e) as i128 }, ..In::default() };
        let mut history = String::new();
        for _ in 0..cx.rng.below(5) {
            clock::advance(cx.rng.range(0, 1 << 32) as i128);
            i.a = cx.rng.coin();
            if scan(b, &mut m, inst.ptr(), &i, &mut ev).is_err() {
                return;
            }
            history += &format!("{}; ", i.a);
        }
        // the control is started anew
        let now = cx.rng.range(0, up as i64) as i128;
        clock::on(now, 1_700_000_100_000_000_000);
        let mut bad = None;
        for n in 0..cx.rng.below(6) {
            i.a = cx.rng.coin();
            i.pv = match cx.rng.below(4) {
                0 => cx.rng.i64() as i128,
                1 => i64::MAX as i128,
                2 => -1,
                _ => i.pv,
            };
            inst.set(b.off.a, i.a as u8);
            inst.set(b.off.pv, i.pv as i64);
            let p = inst.ptr();
            let r = unsafe { call(b.name, &[i.a as u64, i.pv as u64], || (b.f)(p)) };
            let et: i64 = inst.get(b.off.cv);
            cx.ev("scan after a restart");
            cx.eval(hashes(&[k as u64, n as u64, i.a as u64, i.pv as u64, now as u64, 77]), true);
            if r.is_err() {
                bad = Some("the call is refused".to_string());
            } else if i.pv >= 0 && (et < 0 || et as i128 > i.pv) {
                bad = Some(format!("ET is {et}"));
            }
            if bad.is_some() {
                break;
            }
            clock::advance(cx.rng.range(0, 1 << 32) as i128);
        }
        if bad.is_none() {
            m = Model::new();
            i.pv = cx.rng.range(0, 1 << 40) as i128;
            i.a = b.w == What::Tof;
            if b.w == What::Tp {
                clock::on(up + (1i128 << 62), 1_700_000_200_000_000_000);
            }
            for n in 0..8 {
                if let Err(e) = scan(b, &mut m, inst.ptr(), &i, &mut ev) {
                    bad = Some(format!("scan {n} after the timer was stopped: {e}"));
                    break;
                }
                let e = cx.rng.range(10, 41);
                clock::advance(cx.rng.range(0, 1 << e) as i128);
                i.a = cx.rng.coin();
            }
        }
        clock::off();
        cx.check(bad.is_none(), b.name, || {
            format!("{}: scans with IN {history}PT {}; the instance is retained while the clock goes back from {up} to {now} ns, then IN {} PT {}: {}", b.name, i.pv, i.a, i.pv, bad.unwrap())
        });
    }
}

/// The same with the real clock.
fn timer_real(cx: &mut Ctx, b: &Blk) {
    let mut inst = Inst::new(b.l);
    let clk = || {
        let mut t = clock::Timespec { sec: 0, nsec: 0 };
        unsafe { clock::clock_gettime(1, &mut t) };
        t.sec as i128 * 1_000_000_000 + t.nsec as i128
    };
    for _ in 0..cx.n(12).min(100) {
        inst.reset();
        let mut hyp = vec![TState { prev: false, run: None }];
        let mut i = In { a: false, pv: cx.rng.range(0, 400_000) as i128, ..In::default() };
        for k in 0..200 {
            if cx.stop() {
                return;
            }
            if cx.rng.one_in(20) || k == 1 {
                i.a = !i.a;
            }
            inst.set(b.off.a, i.a as u8);
            inst.set(b.off.pv, i.pv as i64);
            let t0 = clk();
            let p = inst.ptr();
            let res = unsafe { call(b.name, &[i.a as u64, i.pv as u64], || (b.f)(p)) };
            let t1 = clk();
            let (q, et): (u8, i64) = (inst.get(b.off.q), inst.get(b.off.cv));
            let mut outs = vec![];
            for h in &hyp {
                timer_step(b.w, *h, &i, t0, t1, &mut outs);
            }
            let mut next: Vec<TState> = vec![];
            for x in &outs {
                if x.0 as u8 == q && x.1 <= et as i128 && et as i128 <= x.2 && !next.contains(&x.3) {
                    next.push(x.3);
                }
            }
            cx.eval(hashes(&[hash_str(b.name), t0 as u64]), true);
            cx.ev("real clock");
            if next.is_empty() || res.is_err() {
                cx.violation(b.name, || format!("{} with the real clock, PT = {}: Q = {q}, ET = {et}, expected one of {outs:?} (t = {t0}..{t1})", b.name, i.pv));
                return;
            }
            hyp = next;
            if cx.rng.one_in(4) {
                let until = clk() + cx.rng.range(0, 60_000) as i128;
                while clk() < until {}
            }
        }
    }
}

fn timer_prop(o: Opts, w: What) -> ! {
    fb::load(&o.st_dir);
    let units = vec![
        unit("random scans", 32, move |cx| {
            let bs = timers(w);
            for k in 0..cx.n(1500) {
                if cx.stop() {
                    return;
                }
                let b = &bs[k % bs.len()];
                let mut inst = Inst::new(b.l);
                timer_run(cx, b, &mut inst, 80);
            }
        }),
        unit("short histories", 3, move |cx| {
            let bs = timers(w);
            timer_exhaustive(cx, &bs[cx.chunk]);
        }),
        unit("restarted", 6, move |cx| {
            let bs = timers(w);
            timer_restarted(cx, &bs[cx.chunk % 3]);
        }),
        unit("real clock", 3, move |cx| {
            let bs = timers(w);
            timer_real(cx, &bs[cx.chunk]);
        }),
    ];
    let mut req = vec![
        "started",
        "running",
        "timeout",
        "stopped",
        "idle",
        "wall clock changed",
        "clock advances during the call",
        "PT lowered while running",
        "PT raised while running",
        "elapsed time equal to the preset time",
        "one nanosecond beyond the preset time",
        "real clock",
        "scan after a restart",
    ];
    if w == What::Tp {
        req.push("rising edge during a pulse");
        req.push("started again in the scan of the timeout");
    }
    run(o, units, &req)
}
pub fn c19(o: Opts) -> ! {
    timer_prop(o, What::Tp)
}
pub fn c20(o: Opts) -> ! {
    timer_prop(o, What::Ton)
}
pub fn c21(o: Opts) -> ! {
    timer_prop(o, What::Tof)
}

// ---------------------------------------------------------------------------------------------- C22

pub fn c22(o: Opts) -> ! {
    fb::load(&o.st_dir);
    let units = vec![
        unit("random scans", 16, |cx| {
            let bs = logic();
            let mut ev = vec![];
            for k in 0..cx.n(2000) {
                if cx.stop() {
                    return;
                }
                let b = &bs[k % bs.len()];
                let mut inst = Inst::new(b.l);
                let mut m = Model::new();
                let mut log = vec![];
                if matches!(b.w, What::Sr | What::Rs) && cx.rng.coin() {
                    // initialized by the declaration
                    m.q = true;
                    inst.set(b.off.q, 1u8);
                }
                let mut i = In::default();
                let mut h = hash_str(b.name);
                let (pa, pb) = (1 + cx.rng.below(8), 1 + cx.rng.below(8));
                for _ in 0..200 {
                    if cx.rng.one_in(pa) {
                        i.a = !i.a;
                    }
                    if cx.rng.one_in(pb) {
                        i.b = !i.b;
                    }
                    log.push((i, 0));
                    ev.clear();
                    h = hashes(&[h, i.a as u64 | (i.b as u64) << 1]);
                    let r = scan(b, &mut m, inst.ptr(), &i, &mut ev);
                    cx.eval(h, true);
                    for e in &ev {
                        cx.ev(e);
                    }
                    let bad = match r {
                        Err(e) => Some(e),
                        Ok(()) if !inst.g.canary_ok() => Some("memory in front of the instance was written".into()),
                        _ => None,
                    };
                    if let Some(e) = bad {
                        cx.violation(b.name, || format!("{e}; {}", hist(b, &log, 12)));
                        break;
                    }
                }
                if k < 4 {
                    cx.sample(|| hist(b, &log, 10));
                }
            }
        }),
        unit("short histories", 4, |cx| {
            let bs = logic();
            let b = &bs[cx.chunk];
            let mut ev = vec![];
            let (sym, len) = if matches!(b.w, What::Sr | What::Rs) { (4usize, 8) } else { (2, 14) };
            let mut inst = Inst::new(b.l);
            for code in 0..sym.pow(len) {
                inst.reset();
                let mut m = Model::new();
                let mut c = code;
                for step in 0..len {
                    let x = c % sym;
                    c /= sym;
                    let i = In { a: x & 1 != 0, b: x & 2 != 0, ..In::default() };
                    ev.clear();
                    if let Err(e) = scan(b, &mut m, inst.ptr(), &i, &mut ev) {
                        cx.violation(b.name, || format!("{e}; {} scan {step} of the input sequence {code} (base {sym}, least significant digit first)", b.name));
                        return;
                    }
                }
                cx.eval(hashes(&[hash_str(b.name), code as u64]), true);
                for e in &ev {
                    cx.ev(e);
                }
            }
        }),
    ];
    run(o, units, &["edge", "no edge", "set and reset", "set", "cleared", "latched"])
}

// ---------------------------------------------------------------------------------------------- C23

/// Inputs for any block
pub fn any_inputs(r: &mut gen::Rng, b: &Blk, m: &Model, last: &In) -> In {
    match b.w {
        What::Ctu | What::Ctd | What::Ctud => counter_inputs(r, b, m, last, 0),
        What::Tp | What::Ton | What::Tof => {
            let mut i = *last;
            if r.one_in(3) {
                i.a = !i.a;
            }
            if m.idle() && (!i.a || b.w != What::Tof) && r.one_in(3) {
                i.pv = r.range(0, 30) as i128 * MS;
            }
            i
        }
        _ => {
            let mut i = *last;
            if r.coin() {
                i.a = !i.a;
            }
            if r.coin() {
                i.b = !i.b;
            }
            i
        }
    }
}

struct Slot {
    k: usize,
    off: usize,
    m: Model,
    i: In,
    log: Vec<(In, i128)>,
}

/// Instances side by side in one memory area, as the variables of a program
fn neighbours(cx: &mut Ctx) {
    let bs = all_blocks();
    let mut ev = vec![];
    for round in 0..cx.n(250) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let n = 2 + r.below(10);
        let mut slots: Vec<Slot> = vec![];
        let mut size = r.below(9);
        for _ in 0..n {
            let k = r.below(bs.len());
            let l = bs[k].l;
            size = (size + l.align - 1) / l.align * l.align;
            slots.push(Slot { k, off: size, m: Model::new(), i: In::default(), log: vec![] });
            size += l.size;
        }
        size = (size + 7) / 8 * 8;
        let mut g = mem::Guard::new(size);
        g.dest(size, |i| 0x80 | i as u8, 0x5a);
        for s in &slots {
            let l = bs[s.k].l;
            g.bytes_mut()[s.off..s.off + l.size].fill(0);
        }
        let origin = r.range(1, 1 << 50) as i128;
        clock::on(origin, 1_700_000_000_000_000_000);
        'run: for _ in 0..60 {
            let r = &mut cx.rng;
            clock::advance(r.range(0, 12) as i128 * MS + r.range(0, 1) as i128);
            // a scan calls some of the instances, some of them several times
            for _ in 0..1 + r.below(2 * n) {
                let r = &mut cx.rng;
                let s = r.below(n);
                let b = &bs[slots[s].k];
                let base = g.ptr();
                let i = any_inputs(r, b, &slots[s].m, &slots[s].i);
                slots[s].i = i;
                slots[s].log.push((i, clock::now() - origin));
                let before = g.bytes().to_vec();
                ev.clear();
                let off = slots[s].off;
                let res = scan(b, &mut slots[s].m, unsafe { base.add(off) }, &i, &mut ev);
                cx.eval(hashes(&[round as u64, cx.chunk as u64, slots[s].log.len() as u64, s as u64, hash_str(b.name)]), true);
                cx.ev(b.name);
                let mut bad = res.err();
                if bad.is_none() {
                    let now = g.bytes();
                    for x in 0..size {
                        if (x < off || x >= off + b.l.size) && now[x] != before[x] {
                            bad = Some(format!("the call has modified byte {} outside of its own instance (instance at {off}, {} bytes)", x, b.l.size));
                            break;
                        }
                    }
                    if !g.canary_ok() {
                        bad = Some("memory in front of the instances was written".into());
                    }
                }
                if let Some(e) = bad {
                    let others: Vec<&str> = slots.iter().map(|s| bs[s.k].name).collect();
                    cx.violation("neighbours", || format!("{e}; {}; instances side by side: {others:?}", hist(b, &slots[s].log, 12)));
                    break 'run;
                }
            }
        }
        clock::off();
        if round == 0 {
            let others: Vec<&str> = slots.iter().map(|s| bs[s.k].name).collect();
            cx.sample(|| format!("instances side by side: {others:?}"));
        }
    }
}

/// An instance is copied to another place variable by variable between the scans
fn moved(cx: &mut Ctx) {
    let bs = all_blocks();
    let mut ev = vec![];
    for round in 0..cx.n(1200) {
        if cx.stop() {
            return;
        }
        let b = &bs[round % bs.len()];
        let mut m = Model::new();
        let mut i = In::default();
        let mut log = vec![];
        let mut cur = Inst::new(b.l);
        let mut alt = Inst::new(b.l);
        let origin = cx.rng.range(1, 1 << 50) as i128;
        clock::on(origin, 1_700_000_000_000_000_000);
        for _ in 0..40 {
            let r = &mut cx.rng;
            clock::advance(r.range(0, 12) as i128 * MS);
            i = any_inputs(r, b, &m, &i);
            log.push((i, clock::now() - origin));
            ev.clear();
            let res = scan(b, &mut m, cur.ptr(), &i, &mut ev);
            cx.eval(hashes(&[round as u64, cx.chunk as u64, log.len() as u64, 3]), true);
            cx.ev("scan of a moved instance");
            if let Err(e) = res {
                clock::off();
                cx.violation("moved", || format!("{e}; the instance is copied between scans; {}", hist(b, &log, 12)));
                break;
            }
            if cx.rng.one_in(2) {
                let fill = cx.rng.u8();
                alt.g.dest(b.l.size, |_| fill, 0x5a);
                for f in &b.l.fields {
                    let (s, d) = (cur.ptr(), alt.ptr());
                    unsafe { std::ptr::copy_nonoverlapping(s.add(f.off), d.add(f.off), f.size) };
                }
                // what is left behind must not matter either
                let l = b.l.size;
                cur.g.dest(l, |_| 0xff, 0x5a);
                std::mem::swap(&mut cur, &mut alt);
            }
        }
        clock::off();
    }
}

/// Instances are called by changing threads at the same time
fn threads(cx: &mut Ctx) {
    let bs = all_blocks();
    let reps = cx.n(6).min(60);
    for round in 0..reps {
        if cx.stop() {
            return;
        }
        struct Sh {
            inst: Inst,
            m: Model,
            i: In,
            k: usize,
            t: i128,
            log: Vec<(In, i128)>,
        }
        let pool: Vec<Mutex<Sh>> = bs
            .iter()
            .enumerate()
            .map(|(k, b)| Mutex::new(Sh { inst: Inst::new(b.l), m: Model::new(), i: In::default(), k, t: 1_000_000_000 + k as i128, log: vec![] }))
            .collect();
        let seeds: Vec<u64> = (0..4).map(|_| cx.rng.next()).collect();
        let found: Mutex<Vec<String>> = Mutex::new(vec![]);
        let handovers = std::sync::atomic::AtomicU64::new(0);
        let scans = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for (w, seed) in seeds.iter().enumerate() {
                let (bs, pool, found, handovers, scans) = (&bs, &pool, &found, &handovers, &scans);
                s.spawn(move || {
                    crate::call::install_alt_stack();
                    let mut r = gen::Rng::new(*seed);
                    let mut ev = vec![];
                    let mut last = [usize::MAX; 64];
                    for n in 0..3000usize {
                        let k = r.below(pool.len());
                        let mut sh = pool[k].lock().unwrap();
                        let sh = &mut *sh;
                        let b = &bs[sh.k];
                        // the clock of this task
                        sh.t += r.range(0, 9) as i128 * MS;
                        clock::on(sh.t, 1_700_000_000_000_000_000);
                        let i = any_inputs(&mut r, b, &sh.m, &sh.i);
                        sh.i = i;
                        if sh.log.len() > 64 {
                            sh.log.drain(..32);
                        }
                        sh.log.push((i, sh.t));
                        ev.clear();
                        let res = scan(b, &mut sh.m, sh.inst.ptr(), &i, &mut ev);
                        clock::off();
                        scans.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if last[k % 64] != usize::MAX {
                            handovers.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        }
                        last[k % 64] = n;
                        if let Err(e) = res {
                            found.lock().unwrap().push(format!("{e}; called by changing threads (now thread {w}); {}", hist(b, &sh.log, 12)));
                            break;
                        }
                    }
                    crate::call::flush_counters();
                });
            }
        });
        for e in found.into_inner().unwrap() {
            cx.violation("threads", || e);
        }
        let n = scans.into_inner();
        for k in 0..n {
            cx.eval(hashes(&[round as u64, cx.chunk as u64, k, 4]), true);
        }
        if n > 0 {
            cx.ev("instances called by changing threads");
        }
        let _ = handovers.into_inner();
    }
}

pub fn c23(o: Opts) -> ! {
    fb::load(&o.st_dir);
    let names: Vec<&'static str> = all_blocks().iter().map(|b| b.name).collect();
    let units = vec![unit("neighbours", 32, neighbours), unit("moved", 16, moved), unit("threads", 4, threads)];
    let mut req = names;
    req.push("scan of a moved instance");
    req.push("instances called by changing threads");
    run(o, units, &req)
}
