K = "src/counters.rs"
T = "src/timers.rs"
L = "src/flanks.rs"
B = "src/bistable_functionblocks.rs"
U = "src/utils.rs"
TM = '''
#[repr(C)]
struct Tm { input: bool, pt: i64, q: bool, et: i64, private: [u64; 8] }
fn tm(pt: i64) -> Tm { Tm { input: false, pt, q: false, et: 0, private: [0; 8] } }
fn ms(n: u64) { std::thread::sleep(std::time::Duration::from_millis(n)) }
'''
SEEDS = [
dict(id="c18-edge-lost-saturated", property="C18",
  edits=[(K, "    } else if params.r_edge() & (params.cv < T::max_value()) {\n", "    } else if (params.cv < T::max_value()) && params.r_edge() {\n")],
  needs="a history: counter at the maximum, CU rises there and stays, R for a call, CU still set",
  breaks="the edge is not consumed while the counter is saturated and counts after the reset although CU did not rise again",
  demo='''
#[repr(C)]
struct P { cu: bool, r: bool, pv: i16, q: bool, cv: i16, private: [u8; 16] }
extern "C-unwind" { fn CTU_INT(p: &mut P); }
fn main() {
    let mut p = P { cu: false, r: false, pv: 5, q: false, cv: i16::MAX, private: [0; 16] };
    unsafe {
        CTU_INT(&mut p);
        p.cu = true;
        CTU_INT(&mut p);
        CTU_INT(&mut p);
        p.r = true;
        CTU_INT(&mut p);
        p.r = false;
        CTU_INT(&mut p);
    }
    assert_eq!(p.cv, 0);
}'''),
dict(id="c18-ctud-lazy-edge", property="C18",
  edits=[(K, "        let r_edge_up = params.cu_r_edge();\n        let r_edge_down = params.cd_r_edge();\n        if !(r_edge_up & r_edge_down) {\n", "        let r_edge_up = params.cu_r_edge();\n        let r_edge_down = !(r_edge_up && params.cu && !params.cd) && params.cd_r_edge();\n        if !(r_edge_up & r_edge_down) {\n")],
  needs="a history of CTUD: CD falls in the same call in which CU rises, and rises again in the next call",
  breaks="the falling CD is not recorded, so that its next rising edge is not counted",
  demo='''
#[repr(C)]
struct P { cu: bool, cd: bool, r: bool, ld: bool, pv: i32, qu: bool, qd: bool, cv: i32, private: [u8; 16] }
extern "C-unwind" { fn CTUD_DINT(p: &mut P); }
fn main() {
    let mut p = P { cu: false, cd: false, r: false, ld: false, pv: 5, qu: false, qd: false, cv: 0, private: [0; 16] };
    let mut call = |cu, cd| unsafe {
        p.cu = cu;
        p.cd = cd;
        CTUD_DINT(&mut p);
        p.cv
    };
    assert_eq!(call(false, true), -1);
    assert_eq!(call(true, false), 0);
    assert_eq!(call(true, true), -1);
}'''),
dict(id="c19-tp-elapsed-u32", property="C19",
  edits=[(T, "                    .as_nanos() as i64,\n", "                    .as_micros() as i64\n                    * 1000,\n")],
  needs="an elapsed time observed with a resolution below a microsecond, or a preset time of part of a microsecond",
  breaks="the elapsed time stays below the preset time for ever if that is not a multiple of a microsecond reached exactly",
  demo=TM + '''
extern "C-unwind" { fn TP(t: &mut Tm); }
fn main() {
    let mut bad = 0;
    for _ in 0..50 {
        let mut t = tm(3_000_000_000);
        t.input = true;
        unsafe { TP(&mut t) };
        std::thread::sleep(std::time::Duration::from_micros(7));
        unsafe { TP(&mut t) };
        bad += (t.et % 1000 == 0) as i32;
    }
    assert!(bad < 25, "elapsed time in whole microseconds");
}'''),
dict(id="c20-ton-wrap", property="C20",
  edits=[(T, "        let duration = Duration::from_nanos(self.preset_time as u64);\n", "        let duration = Duration::from_nanos(self.preset_time as u32 as u64);\n")],
  needs="a preset time of 2^32 ns (about 4.3 s) or more",
  breaks="only the lower 32 bits of the preset time count: the output is set too early",
  demo=TM + '''
extern "C-unwind" { fn TON(t: &mut Tm); }
fn main() {
    let mut t = tm((1 << 32) + 1000);
    t.input = true;
    unsafe { TON(&mut t) };
    ms(5);
    unsafe { TON(&mut t) };
    assert!(!t.q);
}'''),
dict(id="c20-ton-restart", property="C20",
  edits=[(T, "        //Input is false, stop timer regardless\n        timer.reset();\n        false\n", "        //Input is false, stop timer\n        if !timer.is_in_preset_range() {\n            timer.reset();\n        }\n        false\n")],
  needs="a history of TON: input falls before the preset time and rises again",
  breaks="an aborted delay is not forgotten: the next delay goes on from the first rising edge",
  demo=TM + '''
extern "C-unwind" { fn TON(t: &mut Tm); }
fn main() {
    let mut t = tm(200_000_000);
    for (input, wait) in [(true, 120), (false, 0), (true, 120), (true, 0)] {
        t.input = input;
        unsafe { TON(&mut t) };
        ms(wait);
    }
    // 120 ms after the second rising edge
    assert!(!t.q);
}'''),
dict(id="c21-tof-glitch", property="C21",
  edits=[(T, "        if timer.input_rising_edge() {\n            timer.reset();\n        }\n        true\n    } else if timer.input_falling_edge() {\n        timer.start();\n        true\n", "        if timer.input_rising_edge() {\n            timer.set_elapsed_time(0);\n        }\n        true\n    } else if timer.input_falling_edge() {\n        if !timer.is_running() {\n            timer.start();\n        }\n        true\n")],
  needs="a history of TOF: input falls, rises during the delay, and falls again",
  breaks="the second delay goes on from the first falling edge, the output falls too early",
  demo=TM + '''
extern "C-unwind" { fn TOF(t: &mut Tm); }
fn main() {
    let mut t = tm(200_000_000);
    for (input, wait) in [(true, 0), (false, 120), (true, 0), (false, 120), (false, 0)] {
        t.input = input;
        unsafe { TOF(&mut t) };
        ms(wait);
    }
    // 120 ms after the second falling edge
    assert!(t.q);
}'''),
dict(id="c22-sr-toggle", property="C22",
  edits=[(B, "    params.set_output(params.set | (!params.reset & params.output));\n", "    params.set_output((params.set & !(params.reset & params.output)) | (!params.reset & params.output));\n")],
  needs="SR with SET1 and RESET at the same time while the output is set",
  breaks="reset dominates if the output was set",
  demo='''
extern "C-unwind" { fn SR(t: &mut [bool; 3]); }
fn main() {
    let mut t = [true, true, true];
    unsafe { SR(&mut t) };
    assert!(t[2]);
}'''),
dict(id="c22-rs-dominance", property="C22",
  edits=[(B, "    params.set_output(!params.reset & (params.set | params.output));\n", "    params.set_output((!params.reset & params.output) | (params.set & !(params.reset & params.output)));\n")],
  needs="RS with SET and RESET1 at the same time while the output is clear",
  breaks="set dominates if the output was clear",
  demo='''
extern "C-unwind" { fn RS(t: &mut [bool; 3]); }
fn main() {
    let mut t = [true, true, false];
    unsafe { RS(&mut t) };
    assert!(!t[2]);
}'''),
dict(id="c23-signal-wide", property="C23",
  edits=[(U, "#[repr(transparent)]\npub struct Signal {\n    current_value: bool,\n}\n", "#[repr(C)]\npub struct Signal {\n    current_value: bool,\n    edges: u16,\n}\n"),
         (U, "        let res = next_value && (self.current_value ^ next_value);\n        self.current_value = next_value;\n        res\n", "        let res = next_value && (self.current_value ^ next_value);\n        self.current_value = next_value;\n        self.edges = self.edges.wrapping_add(res.into());\n        res\n"),
         (U, "        Signal { current_value: val }\n", "        Signal {\n            current_value: val,\n            edges: 0,\n        }\n")],
  needs="two instances in neighbouring memory (as the ST compiler lays them out)",
  breaks="the private part of the blocks grows beyond what the ST declaration reserves: counting edges overwrites the memory behind the instance",
  demo='''
// layout of the ST declaration: CLK, Q, M
#[repr(C)]
struct Three([u8; 8]);
extern "C-unwind" { fn R_TRIG(t: *mut u8); }
fn main() {
    let mut m = [0_u8; 16];
    m[3..].fill(0x77);
    for clk in [1, 0, 1] {
        m[0] = clk;
        unsafe { R_TRIG(m.as_mut_ptr()) };
    }
    assert!(m[3..].iter().all(|b| *b == 0x77), "{m:?}");
}'''),
dict(id="c30-memo", property="C30",
  edits=[("src/date_time_extra_functions.rs", "    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday().num_days_from_sunday() as i8\n", '''    use std::sync::atomic::{AtomicI64, AtomicI8, Ordering::Relaxed};
    // programs ask for the same day again and again
    static LAST_DAY: AtomicI64 = AtomicI64::new(0);
    static LAST_RESULT: AtomicI8 = AtomicI8::new(4);
    let day = in1.div_euclid(86_400_000_000_000);
    if LAST_DAY.load(Relaxed) == day {
        return LAST_RESULT.load(Relaxed);
    }
    let date = chrono::Utc.timestamp_nanos(in1);
    let result = date.weekday().num_days_from_sunday() as i8;
    LAST_DAY.store(day, Relaxed);
    LAST_RESULT.store(result, Relaxed);
    result
''')],
  needs="two tasks (threads) calling DAY_OF_WEEK for different days at the same time",
  breaks="the memory of the last result is updated in two steps: a concurrent call takes the result of another day",
  demo='''
extern "C-unwind" { fn DAY_OF_WEEK(a: i64) -> i8; }
fn main() {
    let day = 86_400_000_000_000_i64;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..6_i64 {
            let bad = &bad;
            s.spawn(move || {
                let mut i = 0;
                while std::time::Instant::now() < end && !bad.load(std::sync::atomic::Ordering::Relaxed) {
                    for _ in 0..1000 {
                        i += 1;
                        let d = (t + i) % 5;
                        if unsafe { DAY_OF_WEEK(d * day) } as i64 != (d + 4) % 7 {
                            bad.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    assert!(!bad.into_inner());
}'''),
]
