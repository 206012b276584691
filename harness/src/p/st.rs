//! C31 - C35: the ST layer (iec61131-st/*.st), executed by the interpreter on the library under test.
use super::datetime::{date_model, date_parts, tod_model, tod_parts};
use super::floats;
use super::numtext;
use crate::cal;
use crate::st::*;
use crate::*;
use std::sync::OnceLock;

static LIB: OnceLock<Lib> = OnceLock::new();
fn lib(o: &Opts) -> &'static Lib {
    LIB.get_or_init(|| match parse_dir(&o.st_dir) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("the ST sources are not understood: {e}");
            std::process::exit(2)
        }
    })
}

#[derive(Debug, Clone)]
pub enum Want {
    I(i128),
    F(f64),
    Refused,
}
/// What became of an execution, if it is to be judged.
fn run_st(cx: &mut Ctx, m: &mut Machine, name: &str, args: &[Arg]) -> Option<Result<(Res, Vec<Res>), ()>> {
    run_st_2(cx, m, name, args, &std::cell::Cell::new(false))
}
fn run_st_2(cx: &mut Ctx, m: &mut Machine, name: &str, args: &[Arg], unspecified: &std::cell::Cell<bool>) -> Option<Result<(Res, Vec<Res>), ()>> {
    match m.exec(name, args) {
        Ok(x) => Some(Ok(x)),
        Err(Stop::Refused) => {
            cx.ev("refused by the library");
            Some(Err(()))
        }
        Err(Stop::Unspecified) => {
            cx.ev("not judged: not specified");
            unspecified.set(true);
            None
        }
        // not a statement about the code, only about the interpreter
        Err(Stop::Unsupported(_)) => {
            cx.ev("not judged: not understood");
            None
        }
        Err(Stop::Memory(e)) => {
            cx.violation(&format!("{name} memory"), || format!("{name}({}): {e}", show_args(args)));
            None
        }
        // a function which was renamed together with its declaration is none of this property's business
        Err(Stop::Missing(s)) if s != name => {
            cx.ev("not judged: not understood");
            None
        }
        Err(Stop::Missing(s)) => {
            cx.violation(&format!("{s} missing"), || format!("{name}({}): there is no function {s}, neither in ST nor in the library", show_args(args)));
            None
        }
        Err(Stop::Endless) => {
            cx.violation(&format!("{name} endless"), || format!("{name}({}): does not end", show_args(args)));
            None
        }
    }
}
fn show_args(a: &[Arg]) -> String {
    a.iter()
        .map(|a| match a {
            Arg::I(x) => x.to_string(),
            Arg::F(x) => format!("{x:?}"),
            Arg::S(s, n) => format!("{:?} in STRING[{n}]", esc(s)),
            Arg::W(s, n) => format!("{:?} in WSTRING[{n}]", String::from_utf16_lossy(s)),
            Arg::Out => "(output)".into(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
/// There is a specified result.
pub fn judge(cx: &mut Ctx, m: &mut Machine, name: &str, args: &[Arg], want: Want) -> bool {
    let unspecified = std::cell::Cell::new(false);
    let Some(got) = run_st_2(cx, m, name, args, &unspecified) else {
        if unspecified.get() {
            cx.violation(name, || format!("{name}({}): a conversion of a floating point value which is out of range of the integer leaves the result to chance, expected {want:?}", show_args(args)));
        }
        return false;
    };
    let ok = match (&got, &want) {
        (Ok((Res::I(a), _)), Want::I(b)) => a == b,
        (Ok((Res::F(a), _)), Want::F(b)) => a == b || a.is_nan() && b.is_nan(),
        (Err(()), Want::Refused) => true,
        _ => false,
    };
    cx.check(ok, name, || format!("{name}({}): got {:?}, expected {want:?}", show_args(args), got.as_ref().map(|g| &g.0)));
    true
}
pub fn hash_args(name: &str, a: &[Arg]) -> u64 {
    let mut h = vec![hash_str(name)];
    for x in a {
        match x {
            Arg::I(x) => h.push(*x as u64 ^ mix((*x >> 64) as u64)),
            Arg::F(x) => h.push(x.to_bits()),
            Arg::S(s, n) => h.extend([hash_bytes(s), *n as u64]),
            Arg::W(s, n) => h.extend([s.iter().fold(7, |h, c| mix(h ^ *c as u64)), *n as u64]),
            Arg::Out => h.push(3),
        }
    }
    hashes(&h)
}

// ---------------------------------------------------------------------------------------------- C31

/// Width and signedness; BOOL has width 1.
pub fn shape(n: &str) -> Option<(u32, bool)> {
    Some(match n {
        "BOOL" => (1, false),
        "BYTE" | "USINT" | "CHAR" => (8, false),
        "WORD" | "UINT" | "WCHAR" => (16, false),
        "DWORD" | "UDINT" => (32, false),
        "LWORD" | "ULINT" => (64, false),
        "SINT" => (8, true),
        "INT" => (16, true),
        "DINT" => (32, true),
        "LINT" | "TIME" | "LTIME" | "DATE" | "LDATE" | "TOD" | "LTOD" | "DT" | "LDT" => (64, true),
        _ => return None,
    })
}
pub fn low_bits(v: i128, (w, s): (u32, bool)) -> i128 {
    let m = v & ((1 << w) - 1);
    if s && m >> (w - 1) == 1 {
        m - (1 << w)
    } else {
        m
    }
}
const INTS: [&str; 8] = ["LINT", "DINT", "INT", "SINT", "ULINT", "UDINT", "UINT", "USINT"];
pub fn int_conversions() -> Vec<(String, &'static str, &'static str)> {
    let mut v = vec![];
    for a in INTS {
        for b in INTS {
            if a != b {
                v.push((a, b));
            }
        }
    }
    for (a, bs) in [
        ("LWORD", "DWORD WORD BYTE BOOL"),
        ("DWORD", "LWORD WORD BYTE BOOL"),
        ("WORD", "LWORD DWORD BYTE BOOL"),
        ("BYTE", "LWORD DWORD WORD BOOL CHAR"),
        ("BOOL", "LWORD DWORD WORD BYTE"),
        ("CHAR", "BYTE WORD DWORD LWORD"),
        ("WCHAR", "WORD DWORD LWORD"),
        ("LINT", "BOOL TIME LTIME TOD LTOD DATE LDATE"),
        ("DINT", "BOOL"),
        ("LWORD", "DATE LDATE DT LDT TOD LTOD TIME LTIME"),
        ("ULINT", "DATE LDATE DT LDT TOD LTOD TIME LTIME"),
        ("TIME", "LWORD LINT ULINT LTIME"),
        ("LTIME", "LWORD LINT ULINT TIME"),
        ("DATE", "LWORD LINT ULINT"),
        ("LDATE", "LWORD LINT ULINT"),
        ("TOD", "LWORD LINT ULINT LTOD"),
        ("LTOD", "LWORD LINT ULINT TOD"),
        ("DT", "LWORD LINT ULINT LDT"),
        ("LDT", "LWORD LINT ULINT DT"),
    ] {
        v.extend(bs.split(' ').map(|b| (a, b)));
    }
    for a in ["LWORD", "DWORD", "WORD", "BYTE", "BOOL"] {
        v.extend(INTS.iter().map(|b| (a, *b)));
    }
    for a in INTS {
        v.extend(["LWORD", "DWORD", "WORD", "BYTE"].iter().map(|b| (a, *b)));
    }
    v.into_iter().map(|(a, b)| (format!("{a}_TO_{b}"), a, b)).collect()
}
fn operand(r: &mut Rng, t: &str) -> i128 {
    let s = shape(t).unwrap();
    match r.below(4) {
        // the borders of every width
        0 => {
            let w = r.pick(&[1u32, 7, 8, 15, 16, 31, 32, 63, 64]);
            low_bits((1i128 << w) + r.below(3) as i128 - 1, s)
        }
        1 => low_bits(r.next() as i128, s),
        _ => low_bits(r.int(), s),
    }
}
pub fn c31(o: Opts) -> ! {
    let l = lib(&o);
    let all = int_conversions();
    let n = all.len();
    let (a1, a2) = (all.clone(), all);
    let one = |cx: &mut Ctx, m: &mut Machine, (name, a, b): &(String, &'static str, &'static str), v: i128| {
        let want = if *b == "BOOL" && matches!(*a, "LINT" | "DINT") { (v != 0) as i128 } else { low_bits(v, shape(b).unwrap()) };
        let args = [Arg::I(v)];
        if judge(cx, m, name, &args, Want::I(want)) {
            cx.eval(hash_args(name, &args), v != 0);
            cx.ev(if want == v {
                "value kept"
            } else if *b == "BOOL" {
                "reduced to BOOL"
            } else if shape(a).unwrap().0 > shape(b).unwrap().0 {
                "upper bits cut off"
            } else {
                "sign reinterpreted"
            });
            if cx.rng.one_in(5000) {
                cx.sample(|| format!("{name}({v}) = {want}"));
            }
        }
    };
    let units = vec![
        unit("borders and random values", 16, move |cx| {
            let mut m = Machine::new(l);
            for k in (cx.chunk..n).step_by(16) {
                for _ in 0..cx.n(250) {
                    let v = operand(&mut cx.rng, a1[k].1);
                    one(cx, &mut m, &a1[k], v);
                }
                if cx.stop() {
                    return;
                }
            }
        }),
        unit("all values of up to 16 bits", 16, move |cx| {
            let mut m = Machine::new(l);
            for k in (cx.chunk..n).step_by(16) {
                let (w, s) = shape(a2[k].1).unwrap();
                if w > 16 {
                    continue;
                }
                let step = if w == 16 && !cx.thorough() { 61 } else { 1 };
                let mut v = 0i128;
                while v < 1 << w {
                    one(cx, &mut m, &a2[k], low_bits(v, (w, s)));
                    v += step;
                }
                cx.ev("function enumerated");
                if cx.stop() {
                    return;
                }
            }
        }),
    ];
    run(o, units, &["value kept", "reduced to BOOL", "upper bits cut off", "sign reinterpreted", "function enumerated"])
}

// ---------------------------------------------------------------------------------------------- C32

fn real_operand(r: &mut Rng, single: bool) -> f64 {
    let v = match r.below(8) {
        // around integers and halves, the borders of the types
        0 | 1 => {
            let w = r.pick(&[7u32, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64]);
            let b = 2f64.powi(w as i32) * if r.coin() { 1.0 } else { -1.0 };
            b + r.pick(&[-2.0, -1.5, -1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0])
        }
        2 | 3 => r.range(-70_000, 70_000) as f64 / 4.0,
        4 => {
            let x = r.range(-300, 300) as f64 / 2.0;
            f64::from_bits((x.to_bits() as i64 + r.range(-2, 2)) as u64)
        }
        5 => (r.f01() * 2.0 - 1.0) * 2f64.powi(r.below(66) as i32),
        6 => r.pick(&[0.0, -0.0, 0.5, -0.5, 0.49999999999999994, -0.49999999999999994, 0.499999970197678, 4503599627370495.5, 8388607.5, -8388607.5]),
        _ => r.f64(),
    };
    let v = if v.is_finite() { v } else { 1.5 };
    if single {
        let x = v as f32;
        if x.is_finite() { x as f64 } else { 0.5 }
    } else {
        v
    }
}
/// Rounds half away from zero; exact.
pub fn half_away(x: f64) -> f64 {
    let t = x.trunc();
    if (x - t).abs() >= 0.5 { t + 1f64.copysign(x) } else { t }
}
fn in_range(x: f64, (w, s): (u32, bool)) -> bool {
    let top = 2f64.powi(w as i32 - s as i32);
    x < top && if s { x >= -top } else { x > -1.0 && x >= 0.0 }
}
pub fn c32(o: Opts) -> ! {
    let l = lib(&o);
    let units = vec![
        unit("REAL and LREAL to integers", 16, move |cx| {
            let mut m = Machine::new(l);
            for i in 0..cx.n(1500) {
                if cx.stop() {
                    return;
                }
                for (src, single) in [("REAL", true), ("LREAL", false)] {
                    let x = real_operand(&mut cx.rng, single);
                    let args = [Arg::F(x)];
                    for b in INTS {
                        let name = format!("{src}_TO_{b}");
                        let want = half_away(x);
                        if !in_range(want, shape(b).unwrap()) {
                            cx.ev("out of range: not judged");
                            continue;
                        }
                        if judge(cx, &mut m, &name, &args, Want::I(want as i128)) {
                            cx.eval(hash_args(&name, &args), x.fract() != 0.0);
                            cx.ev(if x.fract() == 0.0 { "integral" } else if x.fract().abs() == 0.5 { "half" } else { "fraction" });
                        }
                    }
                    let name = format!("TRUNC__{src}");
                    if in_range(x.trunc(), (64, true)) && judge(cx, &mut m, &name, &args, Want::I(x.trunc() as i128)) {
                        cx.eval(hash_args(&name, &args), x.fract() != 0.0);
                        cx.ev("truncated");
                    }
                    let name = format!("ABS__{src}");
                    if judge(cx, &mut m, &name, &args, Want::F(f64::from_bits(x.to_bits() & !(1 << 63)))) {
                        cx.eval(hash_args(&name, &args), x < 0.0);
                        cx.ev("absolute value");
                    }
                    if !single && in_range(half_away(x), (64, true)) {
                        for b in ["TIME", "LTIME"] {
                            let name = format!("LREAL_TO_{b}");
                            if judge(cx, &mut m, &name, &args, Want::I(half_away(x) as i128)) {
                                cx.eval(hash_args(&name, &args), true);
                                cx.ev("LREAL to TIME");
                            }
                        }
                    }
                    if i < 1 {
                        cx.sample(|| format!("{src} {x:?} to integers: {:?}", half_away(x)));
                    }
                }
                // between the floating point types
                let x = cx.rng.f64();
                let args = [Arg::F(x)];
                if judge(cx, &mut m, "LREAL_TO_REAL", &args, Want::F(x as f32 as f64)) {
                    cx.eval(hash_args("LREAL_TO_REAL", &args), true);
                    cx.ev("LREAL to REAL");
                }
                let x = cx.rng.f32() as f64;
                let args = [Arg::F(x)];
                if judge(cx, &mut m, "REAL_TO_LREAL", &args, Want::F(x)) {
                    cx.eval(hash_args("REAL_TO_LREAL", &args), true);
                    cx.ev("REAL to LREAL");
                }
                for (name, single) in [("REAL_TO_DWORD", true), ("LREAL_TO_LWORD", false), ("DWORD_TO_REAL", true), ("LWORD_TO_LREAL", false)] {
                    let x = if single { cx.rng.f32() as f64 } else { cx.rng.f64() };
                    if x.is_nan() {
                        continue;
                    }
                    let bits = if single { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 };
                    let back = name.starts_with("DWORD") || name.starts_with("LWORD");
                    let args = [if back { Arg::I(bits) } else { Arg::F(x) }];
                    if judge(cx, &mut m, name, &args, if back { Want::F(x) } else { Want::I(bits) }) {
                        cx.eval(hash_args(name, &args), true);
                        cx.ev("bit pattern");
                    }
                }
            }
        }),
        unit("integers to REAL and LREAL", 16, move |cx| {
            let mut m = Machine::new(l);
            for _ in 0..cx.n(800) {
                if cx.stop() {
                    return;
                }
                for a in ["LINT", "DINT", "INT", "SINT", "ULINT", "UDINT", "UINT", "USINT", "TIME", "LTIME"] {
                    let mut v = operand(&mut cx.rng, a);
                    if cx.rng.one_in(3) {
                        // next to the midpoint of two neighbours
                        let e = cx.rng.range(25, 62) as u32;
                        let p = cx.rng.pick(&[24u32, 53]);
                        if e > p {
                            let m = (1i128 << p) + ((cx.rng.next() as i128) & ((1 << p) - 1)) * 2 + 1;
                            v = low_bits((m << (e - p)) + cx.rng.range(-1, 1) as i128, shape(a).unwrap());
                        }
                    }
                    for (b, single) in [("REAL", true), ("LREAL", false)] {
                        if single && a.ends_with("TIME") {
                            continue;
                        }
                        let name = format!("{a}_TO_{b}");
                        let args = [Arg::I(v)];
                        let want = if single { v as f32 as f64 } else { v as f64 };
                        if judge(cx, &mut m, &name, &args, Want::F(want)) {
                            cx.eval(hash_args(&name, &args), v != 0);
                            cx.ev(if want as i128 == v { "exact" } else { "rounded" });
                        }
                    }
                    if !a.starts_with('U') && !a.ends_with("TIME") {
                        let name = format!("ABS__{a}");
                        let args = [Arg::I(v)];
                        // the absolute value of the smallest value is no value of the type
                        if low_bits(-v, shape(a).unwrap()) == -v && judge(cx, &mut m, &name, &args, Want::I(if v < 0 { -v } else { v })) {
                            cx.eval(hash_args(&name, &args), v < 0);
                            cx.ev("absolute value of an integer");
                        }
                    }
                }
            }
        }),
        unit("powers", 16, move |cx| {
            let mut m = Machine::new(l);
            for _ in 0..cx.n(250) {
                if cx.stop() {
                    return;
                }
                for (t, single) in [("REAL", true), ("LREAL", false)] {
                    for u in ["SINT", "INT", "LINT", "USINT", "UINT", "UDINT", "ULINT"] {
                        let x = floats::gen_base(&mut cx.rng);
                        let x = if single { x as f32 as f64 } else { x };
                        let r = &mut cx.rng;
                        let n = match r.below(4) {
                            0 => low_bits(r.range(-12, 12) as i128, shape(u).unwrap()),
                            1 => low_bits(r.range(-400, 400) as i128, shape(u).unwrap()),
                            _ => operand(r, u),
                        };
                        let x = if n.abs() > 100_000 && r.coin() {
                            // a base whose powers stay in range
                            let b = 1.0 + (r.f01() - 0.5) * 60.0 / n.abs() as f64;
                            let b = if r.coin() { -b } else { b };
                            if single { b as f32 as f64 } else { b }
                        } else {
                            x
                        };
                        let name = format!("EXPT__{t}__{u}");
                        let args = [Arg::F(x), Arg::I(n)];
                        let Some(got) = run_st(cx, &mut m, &name, &args) else { continue };
                        let val = match &got {
                            Ok((Res::F(v), _)) => Ok(*v),
                            _ => Err(()),
                        };
                        let ok = if n.abs() < 1 << 31 {
                            floats::powi_ok(x, n as i32, single, val)
                        } else {
                            // the exponent is rounded to LREAL, the result to the type
                            let exact = n as f64 as i128 == n;
                            if !exact && (x.abs().ln() * 1024.0).abs() > 1e-6 {
                                // rounding changes the value of the power, unless it is far off
                                let y = x.abs().ln() * n as f64;
                                if y.abs() < 760.0 { None } else { Some(floats::judge(val, &floats::pow_model(x, n as f64, single), single, 4, 1e-9)) }
                            } else if exact || x.abs() == 1.0 && n % 2 == 0 || x >= 0.0 {
                                Some(floats::judge(val, &floats::pow_model(x, n as f64, single), single, 4, 1e-9))
                            } else {
                                None
                            }
                        };
                        match ok {
                            Some(ok) => {
                                cx.eval(hash_args(&name, &args), n != 0);
                                cx.ev(if n.abs() < 1 << 31 { "exponent of DINT" } else { "exponent beyond DINT" });
                                cx.check(ok, &name, || format!("{name}({x:?}, {n}): got {val:?}, expected {}", floats::show_want(&floats::pow_model(x, n as f64, single))));
                            }
                            None => cx.ev("not judged: too inaccurate to be specified"),
                        }
                    }
                }
            }
        }),
    ];
    run(o, units, &["integral", "half", "fraction", "truncated", "absolute value", "LREAL to TIME", "LREAL to REAL", "REAL to LREAL", "bit pattern", "exact", "rounded", "absolute value of an integer", "exponent of DINT", "exponent beyond DINT"])
}

// ---------------------------------------------------------------------------------------------- C33

const WHOLE: [&str; 6] = ["INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"];
fn opt(w: Option<i64>) -> Want {
    w.map_or(Want::Refused, |v| Want::I(v as i128))
}
/// (function, the function it is another name of)
const ALIASES: [(&str, &str); 24] = [
    ("ADD_LTIME", "ADD_TIME"), ("ADD_LTOD_LTIME", "ADD_TOD_TIME"), ("ADD_LDT_LTIME", "ADD_DT_TIME"), ("ADD__TIME__TIME", "ADD_TIME"),
    ("ADD__TIME_OF_DAY__TIME", "ADD_TOD_TIME"), ("ADD__DATE_AND_TIME__TIME", "ADD_DT_TIME"), ("SUB_LTIME", "SUB_TIME"), ("SUB_LDATE_LDATE", "SUB_DATE_DATE"),
    ("SUB_LTOD_LTIME", "SUB_TOD_TIME"), ("SUB_LTOD_LTOD", "SUB_TOD_TOD"), ("SUB_LDT_LTIME", "SUB_DT_TIME"), ("SUB_LDT_LDT", "SUB_DT_DT"),
    ("SUB__TIME__TIME", "SUB_TIME"), ("SUB__DATE__DATE", "SUB_DATE_DATE"), ("SUB__TIME_OF_DAY__TIME", "SUB_TOD_TIME"),
    ("SUB__TIME_OF_DAY__TIME_OF_DAY", "SUB_TOD_TOD"), ("SUB__DATE_AND_TIME__TIME", "SUB_DT_TIME"), ("SUB__DATE_AND_TIME__DATE_AND_TIME", "SUB_DT_DT"),
    // the functions themselves, against the model
    ("ADD_TIME", ""), ("SUB_TIME", ""), ("ADD_DT_TIME", ""), ("SUB_DT_DT", ""), ("SUB_DATE_DATE", ""), ("SUB_TOD_TOD", ""),
];
pub fn c33(o: Opts) -> ! {
    let l = lib(&o);
    let units = vec![
        unit("arithmetic", 16, move |cx| {
            let mut m = Machine::new(l);
            for i in 0..cx.n(900) {
                if cx.stop() {
                    return;
                }
                for (name, _) in ALIASES {
                    let (a, b) = match cx.rng.below(4) {
                        0 => (cx.rng.i64(), cx.rng.i64()),
                        1 => {
                            // next to the limits
                            let a = cal::gen(&mut cx.rng);
                            let d = if name.starts_with("ADD") { if a < 0 { i64::MIN.wrapping_sub(a) } else { i64::MAX - a } } else if a < 0 { a.wrapping_sub(i64::MIN) } else { a.wrapping_sub(i64::MAX) };
                            (a, d.wrapping_add(cx.rng.range(-2, 2)))
                        }
                        _ => (cal::gen(&mut cx.rng), cal::gen(&mut cx.rng)),
                    };
                    let v = if name.starts_with("ADD") { a as i128 + b as i128 } else { a as i128 - b as i128 };
                    let want = i64::try_from(v).ok();
                    let args = [Arg::I(a as i128), Arg::I(b as i128)];
                    if judge(cx, &mut m, name, &args, opt(want)) {
                        cx.eval(hash_args(name, &args), b != 0);
                        cx.ev(if want.is_some() { "sum or difference" } else { "sum or difference beyond the range" });
                    }
                    if i < 1 && name.len() > 12 {
                        cx.sample(|| format!("{name}({a}, {b}) = {want:?}"));
                    }
                }
            }
        }),
        unit("conversions", 16, move |cx| {
            let mut m = Machine::new(l);
            for _ in 0..cx.n(2500) {
                if cx.stop() {
                    return;
                }
                let t = cal::gen(&mut cx.rng);
                let args = [Arg::I(t as i128)];
                let tod = (t as i128).rem_euclid(cal::DAY) as i64;
                let date = i64::try_from(t as i128 - tod as i128).ok();
                for name in ["DATE_AND_TIME_TO_DATE", "LDT_TO_DATE", "DT_TO_DATE"] {
                    // no midnight before the first day of the range
                    if date.is_some() && judge(cx, &mut m, name, &args, opt(date)) {
                        cx.eval(hash_args(name, &args), true);
                        cx.ev("date of");
                    }
                }
                for name in ["DATE_AND_TIME_TO_TIME_OF_DAY", "LDT_TO_LTOD", "LDT_TO_TOD", "DT_TO_LTOD", "DT_TO_TOD"] {
                    if judge(cx, &mut m, name, &args, Want::I(tod as i128)) {
                        cx.eval(hash_args(name, &args), true);
                        cx.ev("time of day of");
                    }
                }
                // splitting
                let p = cal::split(t);
                let (date_parts, tod_parts) = ([p.y, p.mo, p.d], [p.h, p.mi, p.s, p.ns / 1_000_000]);
                let u = cx.rng.pick(&WHOLE);
                for (name, want) in [
                    (format!("SPLIT_DATE__{u}"), date_parts.to_vec()),
                    (format!("SPLIT_TOD__{u}"), tod_parts.to_vec()),
                    (format!("SPLIT_LTOD__{u}"), tod_parts.to_vec()),
                    (format!("SPLIT_DT__{u}"), [&date_parts[..], &tod_parts[..]].concat()),
                    (format!("SPLIT_LDT__{u}"), [&date_parts[..], &tod_parts[..]].concat()),
                ] {
                    let mut args = vec![Arg::I(t as i128)];
                    args.extend(want.iter().map(|_| Arg::Out));
                    let Some(got) = run_st(cx, &mut m, &name, &args) else { continue };
                    let ok = match &got {
                        Ok((_, v)) => v.len() == want.len() + 1 && v[1..].iter().zip(&want).all(|(a, b)| *a == Res::I(*b as i128)),
                        Err(()) => false,
                    };
                    cx.eval(hash_args(&name, &args), true);
                    cx.ev(if name.starts_with("SPLIT_L") { "split (L)" } else { "split" });
                    cx.check(ok, &name, || format!("{name}({t}): got {:?}, expected {want:?}", got.map(|g| g.1)));
                }
                // putting together
                let tods = tod_parts_of(&mut cx.rng);
                for u in ["SINT", "USINT", "INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"] {
                    let v: Vec<i128> = tods.iter().map(|x| low_bits(*x, shape(u).unwrap())).collect();
                    let args: Vec<Arg> = v.iter().map(|x| Arg::I(*x)).collect();
                    let want = tod_model(v[0], v[1], v[2], v[3]);
                    let name = format!("CONCAT_LTOD__{u}");
                    if judge(cx, &mut m, &name, &args, opt(want)) {
                        cx.eval(hash_args(&name, &args), true);
                        cx.ev(if want.is_some() { "time of day put together" } else { "no such time of day" });
                    }
                }
                let d = date_parts_of(&mut cx.rng);
                let tods = if cx.rng.coin() { [12, 34, 56, 789] } else { tod_parts_of(&mut cx.rng) };
                for u in WHOLE {
                    let s = shape(u).unwrap();
                    let v: Vec<i128> = [d.0, d.1, d.2].iter().chain(&tods).map(|x| low_bits(*x, s)).collect();
                    let args: Vec<Arg> = v.iter().map(|x| Arg::I(*x)).collect();
                    let want = match (date_model(v[0], v[1], v[2]), tod_model(v[3], v[4], v[5], v[6])) {
                        (Some(a), Some(b)) => i64::try_from(a as i128 + b as i128).ok(),
                        _ => None,
                    };
                    for f in ["CONCAT_DT", "CONCAT_LDT"] {
                        let name = format!("{f}__{u}");
                        if judge(cx, &mut m, &name, &args, opt(want)) {
                            cx.eval(hash_args(&name, &args), true);
                            cx.ev(if want.is_some() { "date and time put together" } else { "no such date and time" });
                        }
                    }
                }
                let (a, b) = (cal::gen(&mut cx.rng), cal::gen(&mut cx.rng));
                let want = i64::try_from((a as i128).div_euclid(cal::DAY) * cal::DAY + (b as i128).rem_euclid(cal::DAY)).ok();
                let args = [Arg::I(a as i128), Arg::I(b as i128)];
                if judge(cx, &mut m, "CONCAT_DATE_LTOD", &args, opt(want)) {
                    cx.eval(hash_args("CONCAT_DATE_LTOD", &args), true);
                    cx.ev("CONCAT_DATE_LTOD");
                }
            }
        }),
    ];
    run(
        o,
        units,
        &[
            "sum or difference", "sum or difference beyond the range", "date of", "time of day of", "split", "split (L)", "time of day put together", "no such time of day", "date and time put together",
            "no such date and time", "CONCAT_DATE_LTOD",
        ],
    )
}
fn tod_parts_of(r: &mut Rng) -> [i128; 4] {
    tod_parts(r)
}
fn date_parts_of(r: &mut Rng) -> (i128, i128, i128) {
    date_parts(r)
}

// ---------------------------------------------------------------------------------------------- C34

pub fn s8(t: &[char]) -> Vec<u8> {
    let mut v = t.iter().collect::<String>().into_bytes();
    v.push(0);
    v
}
pub fn s16(t: &[char]) -> Vec<u16> {
    let mut v: Vec<u16> = t.iter().collect::<String>().encode_utf16().collect();
    v.push(0);
    v
}
fn until0<U: Copy + Default + PartialEq>(v: &[U]) -> Option<Vec<U>> {
    v.iter().position(|c| *c == U::default()).map(|n| v[..n].to_vec())
}
/// A text with what an earlier, longer one left behind its terminator, in a variable of a length.
fn variable<U: Copy>(r: &mut Rng, mut t: Vec<U>, most: usize, junk: impl Fn(&mut Rng) -> U) -> (Vec<U>, usize) {
    let used = t.len() - 1;
    let n = match r.below(3) {
        0 => used,
        1 => (used + r.below(4)).min(most.max(used)),
        _ => most.max(used),
    };
    if r.coin() {
        while t.len() < (n + 1).min(used + 40) {
            t.push(junk(r));
        }
    }
    (t, n)
}
pub enum Text {
    S(Vec<u8>, usize),
    W(Vec<u16>, usize),
}
impl Text {
    pub fn new(r: &mut Rng, t: &[char], wide: bool, most: usize) -> Text {
        if wide {
            let (t, n) = variable(r, s16(t), most, |r| r.range(1, 0xffff) as u16);
            Text::W(t, n)
        } else {
            let (t, n) = variable(r, s8(t), most, |r| r.range(1, 255) as u8);
            Text::S(t, n)
        }
    }
    pub fn arg(&self) -> Arg<'_> {
        match self {
            Text::S(t, n) => Arg::S(t, *n),
            Text::W(t, n) => Arg::W(t, *n),
        }
    }
}
/// The result has to be a text (`None`: the call has to be refused), the arguments keep theirs.
pub fn judge_text(cx: &mut Ctx, m: &mut Machine, name: &str, args: &[Arg], want: Option<&[char]>, wide: bool) -> bool {
    let Some(got) = run_st(cx, m, name, args) else { return false };
    let ok = match (&got, want) {
        (Err(()), None) => true,
        (Ok((Res::S(b), _)), Some(t)) if !wide => until0(b).is_some_and(|b| b[..] == s8(t)[..s8(t).len() - 1]),
        (Ok((Res::W(b), _)), Some(t)) if wide => until0(b).is_some_and(|b| b[..] == s16(t)[..s16(t).len() - 1]),
        _ => false,
    };
    cx.check(ok, name, || {
        let show = match &got {
            Err(()) => "a refusal".into(),
            Ok((Res::S(b), _)) => format!("{:?}", until0(b).map(|b| esc(&b))),
            Ok((Res::W(b), _)) => format!("{:?}", until0(b).map(|b| String::from_utf16_lossy(&b))),
            Ok((r, _)) => format!("{r:?}"),
        };
        format!("{name}({}): got {show}, expected {:?}", show_args(args), want.map(|t| t.iter().collect::<String>()))
    });
    if let Ok((_, outs)) = &got {
        let same = args.iter().zip(outs).all(|(a, o)| match (a, o) {
            (Arg::S(s, _), Res::S(o)) => o.starts_with(s),
            (Arg::W(s, _), Res::W(o)) => o.starts_with(s),
            _ => true,
        });
        cx.check(same, &format!("{name} inputs"), || format!("{name}({}) changed an input", show_args(args)));
    }
    true
}
/// Character level models; `None`: refused.
pub fn text_model(op: &str, a: &[char], b: &[char], l: i64, p: i64) -> Option<Vec<char>> {
    let n = a.len() as i64;
    let cut = |from: i64, len: i64| -> Option<(usize, usize)> { (from >= 0 && len >= 0 && from + len <= n).then_some((from as usize, (from + len) as usize)) };
    Some(match op {
        "LEFT" => a[..cut(0, l)?.1].to_vec(),
        "RIGHT" => a[cut(n - l, l)?.0..].to_vec(),
        // the position is one of a character
        "MID" | "DELETE" | "REPLACE" if p > n => return None,
        "MID" => {
            let (x, y) = cut(p - 1, l)?;
            a[x..y].to_vec()
        }
        "INSERT" => {
            let (x, _) = cut(p, 0)?;
            [&a[..x], b, &a[x..]].concat()
        }
        "DELETE" => {
            let (x, y) = cut(p - 1, l)?;
            [&a[..x], &a[y..]].concat()
        }
        _ => {
            let (x, y) = cut(p - 1, l)?;
            [&a[..x], b, &a[y..]].concat()
        }
    })
}
pub fn short_text(r: &mut Rng, units: usize, wide: bool) -> Vec<char> {
    let mut t = r.text();
    while if wide { s16(&t).len() } else { s8(&t).len() } > units + 1 {
        t.pop();
    }
    t
}
fn manipulation(cx: &mut Ctx) {
    let mut m = Machine::new(lib(cx.o));
    for i in 0..cx.n(1200) {
        if cx.stop() {
            return;
        }
        for op in ["LEFT", "RIGHT", "MID", "INSERT", "DELETE", "REPLACE"] {
            let wide = cx.rng.coin();
            let r = &mut cx.rng;
            let a = short_text(r, 1024, wide);
            let b = short_text(r, 1023, wide);
            let n = a.len() as i64;
            let (mut p, mut k) = (r.range(1, n.max(1)), 0);
            if n > 0 {
                k = r.range(0, n);
                if matches!(op, "MID" | "DELETE" | "REPLACE") {
                    k = r.range(0, n - p + 1);
                }
            }
            if op == "INSERT" {
                p = r.range(0, n);
            }
            match r.below(5) {
                0 => p = r.pick(&[0, -1, n + 1, n + 2, i32::MAX as i64, i32::MIN as i64, n]),
                1 => k = r.pick(&[-1, n + 1, n - p + 2, i32::MAX as i64, i32::MIN as i64, n - p + 1]),
                _ => {}
            }
            let (p, k) = (p as i32 as i64, k as i32 as i64);
            let want = text_model(op, &a, &b, k, p);
            let name = format!("{op}__{}", if wide { "WSTRING" } else { "STRING" });
            let (ta, tb) = (Text::new(r, &a, wide, 2048), Text::new(r, &b, wide, 2048));
            let args = match op {
                "LEFT" | "RIGHT" => vec![ta.arg(), Arg::I(k as i128)],
                "MID" | "DELETE" => vec![ta.arg(), Arg::I(k as i128), Arg::I(p as i128)],
                "INSERT" => vec![ta.arg(), tb.arg(), Arg::I(p as i128)],
                _ => vec![ta.arg(), tb.arg(), Arg::I(k as i128), Arg::I(p as i128)],
            };
            if judge_text(cx, &mut m, &name, &args, want.as_deref(), wide) {
                cx.eval(hash_args(&name, &args), true);
                cx.ev(if want.is_some() { "text cut or put together" } else { "outside of the text" });
                if i < 1 {
                    cx.sample(|| format!("{name}({}) = {want:?}", show_args(&args)));
                }
            }
        }
        // CONCAT, LEN, FIND by their generic names
        let wide = cx.rng.coin();
        let k = 2 + cx.rng.below(3);
        let t: Vec<Vec<char>> = (0..k).map(|_| short_text(&mut cx.rng, 500, wide)).collect();
        let v: Vec<Text> = t.iter().map(|t| Text::new(&mut cx.rng, t, wide, 600)).collect();
        let args: Vec<Arg> = v.iter().map(|t| t.arg()).collect();
        if judge_text(cx, &mut m, "CONCAT", &args, Some(&t.concat()), wide) {
            cx.eval(hash_args("CONCAT", &args), true);
            cx.ev("CONCAT");
        }
        if judge(cx, &mut m, "LEN", &args[..1], Want::I(t[0].len() as i128)) {
            cx.eval(hash_args("LEN", &args[..1]), true);
            cx.ev("LEN");
        }
        // the part looked for is mostly there
        let r = &mut cx.rng;
        let part = match r.below(8) {
            0 => t[1].clone(),
            1 => vec![],
            2 => t[0].iter().rev().take(r.below(4)).copied().collect(),
            _ => {
                let x = r.below(t[0].len() + 1);
                let y = x + r.below((t[0].len() - x).min(6) + 1);
                t[0][x..y].to_vec()
            }
        };
        let part_text = Text::new(r, &part, wide, 600);
        let args = [v[0].arg(), part_text.arg()];
        let want = if part.is_empty() { 0 } else { t[0].windows(part.len()).position(|w| w == part).map_or(0, |i| i + 1) };
        if judge(cx, &mut m, "FIND", &args, Want::I(want as i128)) {
            cx.eval(hash_args("FIND", &args), true);
            cx.ev(if want > 0 { "FIND: found" } else { "FIND: not found" });
        }
    }
}
fn comparison(cx: &mut Ctx) {
    let mut m = Machine::new(lib(cx.o));
    for _ in 0..cx.n(3000) {
        if cx.stop() {
            return;
        }
        let wide = cx.rng.coin();
        let a = short_text(&mut cx.rng, 80, wide);
        let b = match cx.rng.below(4) {
            0 => short_text(&mut cx.rng, 80, wide),
            1 => a.clone(),
            2 => a[..cx.rng.below(a.len() + 1)].to_vec(),
            _ => {
                let mut b = a.clone();
                if !b.is_empty() {
                    let k = cx.rng.below(b.len());
                    b[k] = cx.rng.ch(0);
                }
                b
            }
        };
        if s8(&b).len() > 81 && !wide || s16(&b).len() > 81 {
            continue;
        }
        let (ta, tb) = (Text::new(&mut cx.rng, &a, wide, 80), Text::new(&mut cx.rng, &b, wide, 80));
        let o = if wide { s16(&a).cmp(&s16(&b)) } else { s8(&a).cmp(&s8(&b)) };
        let p = if wide { "W" } else { "" };
        for (f, want) in [("EQUAL", o.is_eq()), ("GREATER", o.is_gt()), ("LESS", o.is_lt())] {
            let name = format!("{p}STRING_{f}");
            let args = [ta.arg(), tb.arg()];
            if judge(cx, &mut m, &name, &args, Want::I(want as i128)) {
                cx.eval(hash_args(&name, &args), true);
                cx.ev(match o {
                    std::cmp::Ordering::Less => "less",
                    std::cmp::Ordering::Equal => "equal",
                    _ => "greater",
                });
            }
        }
    }
}
fn characters(cx: &mut Ctx) {
    let mut m = Machine::new(lib(cx.o));
    for v in 0..65536u32 {
        if v as usize % 8 != cx.chunk || cx.stop() {
            continue;
        }
        if v < 256 {
            let got = run_st(cx, &mut m, "CHAR_TO_STRING", &[Arg::I(v as i128)]);
            if let Some(got) = got {
                let ok = matches!(&got, Ok((Res::S(b), _)) if until0(b).is_some_and(|t| t == if v == 0 { vec![] } else { vec![v as u8] }));
                cx.eval(hashes(&[1, v as u64]), v != 0);
                cx.ev("character to text");
                cx.check(ok, "CHAR_TO_STRING", || format!("CHAR_TO_STRING({v:#x}): got {got:?}"));
            }
        }
        let got = run_st(cx, &mut m, "WCHAR_TO_WSTRING", &[Arg::I(v as i128)]);
        if let Some(got) = got {
            let ok = matches!(&got, Ok((Res::W(b), _)) if until0(b).is_some_and(|t| t == if v == 0 { vec![] } else { vec![v as u16] }));
            cx.eval(hashes(&[2, v as u64]), v != 0);
            cx.ev("character to text");
            cx.check(ok, "WCHAR_TO_WSTRING", || format!("WCHAR_TO_WSTRING({v:#x}): got {got:?}"));
        }
        // the first unit of a text
        let (a, w) = ([(v & 255) as u8, 66, 0], [v as u16, 66, 0]);
        for (name, arg, want) in [("STRING_TO_CHAR", Arg::S(&a, 80), (v & 255) as i128), ("WSTRING_TO_WCHAR", Arg::W(&w, 80), v as i128)] {
            let args = [arg];
            if judge(cx, &mut m, name, &args, Want::I(want)) {
                cx.eval(hash_args(name, &args), true);
                cx.ev("text to character");
            }
        }
    }
}
fn number_texts(cx: &mut Ctx) {
    let mut m = Machine::new(lib(cx.o));
    for i in 0..cx.n(1500) {
        if cx.stop() {
            return;
        }
        // integers to texts
        for a in ["BYTE", "LWORD", "DWORD", "LINT", "DINT"] {
            let v = operand(&mut cx.rng, a);
            let t: Vec<char> = v.to_string().chars().collect();
            for (b, wide) in [("STRING", false), ("WSTRING", true)] {
                let name = format!("{a}_TO_{b}");
                let args = [Arg::I(v)];
                if judge_text(cx, &mut m, &name, &args, Some(&t), wide) {
                    cx.eval(hash_args(&name, &args), true);
                    cx.ev("integer to text");
                    if i < 1 {
                        cx.sample(|| format!("{name}({v})"));
                    }
                }
            }
        }
        // dates and times
        let t = if cx.rng.coin() { cal::gen(&mut cx.rng) } else { cx.rng.i64() };
        let p = cal::split(t);
        let date = format!("{:04}-{:02}-{:02}", p.y, p.mo, p.d);
        for (names, want) in [
            ("DT LDT", format!("{date}-{}", numtext::clock_text(&p))),
            ("TIME LTIME", numtext::time_text(t)),
            ("DATE LDATE", date.clone()),
            ("TOD LTOD", numtext::clock_text(&p)),
        ] {
            let want: Vec<char> = want.chars().collect();
            for n in names.split(' ') {
                for (b, wide) in [("STRING", false), ("WSTRING", true)] {
                    let name = format!("{n}_TO_{b}");
                    let args = [Arg::I(t as i128)];
                    if judge_text(cx, &mut m, &name, &args, Some(&want), wide) {
                        cx.eval(hash_args(&name, &args), true);
                        cx.ev("date or time to text");
                    }
                }
            }
        }
        for n in ["LREAL", "REAL"] {
            let v = if n == "REAL" { cx.rng.f32() as f64 } else { cx.rng.f64() };
            let args = [Arg::F(v)];
            for b in ["STRING", "WSTRING"] {
                let name = format!("{n}_TO_{b}");
                let Some(got) = run_st(cx, &mut m, &name, &args) else { continue };
                let text = match &got {
                    Ok((Res::S(b), _)) => until0(b).and_then(|b| String::from_utf8(b).ok()),
                    Ok((Res::W(b), _)) => until0(b).and_then(|b| String::from_utf16(&b).ok()),
                    _ => None,
                };
                // C09: the notation changes at 10^14, for REAL it may change at 10^6
                let ok = match &text {
                    Some(t) => numtext::float_text_ok(v, t, 1e14).or_else(|e| if n == "REAL" { numtext::float_text_ok(v, t, 1e6) } else { Err(e) }),
                    None => Err("no text".into()),
                };
                cx.eval(hash_args(&name, &args), true);
                cx.ev("float to text");
                cx.check(ok.is_ok(), &name, || format!("{name}({v:?}): got {text:?}: {}", ok.clone().unwrap_err()));
            }
        }
        // texts to numbers
        let t = match cx.rng.below(8) {
            0..=2 => numtext::int_text(&mut cx.rng),
            3 | 4 => numtext::float_text(&mut cx.rng),
            _ => number_text(&mut cx.rng).into_bytes(),
        };
        let t = {
            let mut u = t.clone();
            if cx.rng.one_in(4) {
                numtext::mutate(&mut cx.rng, &mut u);
            }
            // what is no text cannot be written as a WSTRING
            u.truncate(2000);
            String::from_utf8(u).unwrap_or_else(|_| String::from_utf8_lossy(&t).into())
        };
        let short = t.len() <= 80;
        let chars: Vec<char> = t.chars().collect();
        let parsed = numtext::float_grammar(t.as_bytes());
        for (n, float) in [("LINT", false), ("DINT", false), ("LREAL", true), ("REAL", true)] {
            let plain = Text::new(&mut cx.rng, &chars, false, 2048);
            let wide = Text::new(&mut cx.rng, &chars, true, 2048);
            for (name, args) in [(format!("STRING_TO_{n}"), [plain.arg()]), (format!("WSTRING_TO_{n}"), [wide.arg()])] {
                let refused;
                if !float {
                    let (min, max) = if n == "LINT" { (i64::MIN as i128, i64::MAX as i128) } else { (i32::MIN as i128, i32::MAX as i128) };
                    let want = numtext::parse_model(t.as_bytes(), min, max);
                    refused = want.is_none();
                    if !judge(cx, &mut m, &name, &args, want.map_or(Want::Refused, Want::I)) {
                        continue;
                    }
                } else {
                    let Some(got) = run_st(cx, &mut m, &name, &args) else { continue };
                    let v = match &got {
                        Ok((Res::F(v), _)) => Ok(*v),
                        _ => Err(()),
                    };
                    refused = matches!(parsed, numtext::Parsed::Bad);
                    cx.check(got.is_err() == v.is_err() && numtext::parsed_as(&parsed, &v, n == "REAL"), &name, || {
                        format!("{name}({}): got {got:?}, which is not the nearest value / should be refused / accepted", show_args(&args))
                    });
                }
                cx.eval(hash_args(&name, &args), true);
                cx.ev(match (refused, short, float) {
                    (true, ..) => "text which is no number",
                    (_, false, _) => "number of more than 80 characters",
                    (_, _, false) => "text to integer",
                    _ => "text to float",
                });
            }
        }
    }
}
fn number_text(r: &mut Rng) -> String {
    let mut t = match r.below(8) {
        0..=2 => r.int().to_string(),
        3 => format!("{:?}", r.f64()),
        4 => format!("16#{:X}", r.u64() >> r.below(64)),
        5 => format!("{}e{}", r.f64(), r.range(-20, 20)),
        6 => format!("2#{:b}", r.u64() >> r.below(64)),
        _ => format!("{:.3}", r.range(-1_000_000, 1_000_000) as f64 / 1000.0),
    };
    if r.one_in(4) {
        // long: leading zeros, or digits behind the point
        let k = r.pick(&[50, 70, 78, 79, 80, 81, 100, 200, 600]);
        if t.contains('.') && !t.contains('e') {
            t += &"0123456789".repeat(60)[..k];
        } else if !t.contains('#') && !t.starts_with('-') {
            t = "0".repeat(k) + &t;
        }
    }
    if r.one_in(6) {
        let k = r.below(t.chars().count() + 1);
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..r.pick(&[1, 1, 1, 30, 79]) {
            let x = r.pick(&['x', ' ', '.', '-', '9', '\u{20ac}', '\u{ff11}', '\u{1f600}']);
            c.insert(k, x);
        }
        t = c.into_iter().collect();
    }
    t
}
fn transcoding(cx: &mut Ctx) {
    let mut m = Machine::new(lib(cx.o));
    for _ in 0..cx.n(3000) {
        if cx.stop() {
            return;
        }
        let t = short_text(&mut cx.rng, 2048, false);
        let (a, w) = (Text::new(&mut cx.rng, &t, false, 2048), Text::new(&mut cx.rng, &t, true, 2048));
        for (name, arg, wide) in [("STRING_TO_WSTRING", a.arg(), true), ("WSTRING_TO_STRING", w.arg(), false)] {
            let args = [arg];
            if judge_text(cx, &mut m, name, &args, Some(&t), wide) {
                cx.eval(hash_args(name, &args), !t.is_empty());
                cx.ev("transcoded");
            }
        }
    }
}
pub fn c34(o: Opts) -> ! {
    lib(&o);
    let units = vec![
        unit("manipulation", 16, manipulation),
        unit("comparison", 8, comparison),
        unit("characters", 8, characters),
        unit("numbers", 16, number_texts),
        unit("transcoding", 8, transcoding),
    ];
    run(
        o,
        units,
        &[
            "text cut or put together", "outside of the text", "CONCAT", "LEN", "FIND: found", "FIND: not found", "less", "equal", "greater", "character to text", "text to character", "integer to text", "float to text", "date or time to text",
            "text which is no number", "number of more than 80 characters", "text to integer", "text to float", "transcoded",
        ],
    )
}

// ---------------------------------------------------------------------------------------------- C35

pub fn c35(o: Opts) -> ! {
    let l = lib(&o);
    let sources: String = std::fs::read_dir(&o.src_dir).into_iter().flatten().flatten().filter_map(|f| std::fs::read_to_string(f.path()).ok()).collect();
    let mut names: Vec<&'static String> = l.pous.iter().filter(|p| !p.1.block && p.1.generics.is_empty()).map(|p| p.0).collect();
    names.sort();
    let units = vec![unit("every function", 16, move |cx| {
        let mut m = Machine::new(l);
        for name in names.iter().skip(cx.chunk).step_by(16) {
            let p = &l.pous[*name];
            let params: Vec<&Var> = p.vars.iter().filter(|v| !matches!(v.pass, Pass::Local | Pass::Return)).collect();
            for _ in 0..cx.n(120) {
                if cx.stop() {
                    return;
                }
                let texts: Vec<Text> = params
                    .iter()
                    .map(|v| match &v.ty.k {
                        Kind::WStr(n) => {
                            let t = short_text(&mut cx.rng, (*n).min(600), true);
                            Text::new(&mut cx.rng, &t, true, *n)
                        }
                        Kind::Str(n) => {
                            let t = short_text(&mut cx.rng, (*n).min(600), false);
                            Text::new(&mut cx.rng, &t, false, *n)
                        }
                        _ => Text::S(vec![0], 0),
                    })
                    .collect();
                let r = &mut cx.rng;
                let mut args: Vec<Arg> = vec![];
                for (v, t) in params.iter().zip(&texts) {
                    args.push(match (&v.ty.k, v.pass) {
                        (_, Pass::Out) => Arg::Out,
                        // what is written to has the declared size
                        (Kind::Str(_) | Kind::WStr(_), Pass::InOut) => Arg::Out,
                        (Kind::Str(_) | Kind::WStr(_), _) => t.arg(),
                        (Kind::Real, _) => Arg::F(r.f32() as f64),
                        (Kind::LReal, _) => Arg::F(r.f64()),
                        (Kind::Int(..), _) if r.coin() => Arg::I(r.range(0, 12) as i128),
                        _ => Arg::I(r.int()),
                    });
                }
                // results which do not fit their variable are up to the caller: C05
                let plain = p.vars.iter().filter(|v| v.ty.is_text()).count() == 0;
                match m.exec(name, &args) {
                    Ok(_) => cx.ev("executed"),
                    Err(Stop::Refused) => cx.ev("refused by the library"),
                    Err(Stop::Unspecified) => cx.ev("floating point value which does not fit"),
                    Err(Stop::Unsupported(_)) => {
                        cx.ev("not judged: not understood");
                        continue;
                    }
                    Err(Stop::Missing(s)) => {
                        // a symbol this harness does not know: is there anything which might be it?
                        let stem = s.find("__").map_or(s.as_str(), |k| &s[..k + 2]);
                        if crate::st::syms::is_gone(&s) || !l.unknown.contains_key(&s) && !sources.contains(&s) && !sources.contains(stem) {
                            cx.violation(&format!("{s} missing"), || format!("{name}: {s} is neither implemented in ST nor in the library"));
                        }
                        break;
                    }
                    Err(Stop::Memory(e)) => cx.violation(&format!("{name} memory"), || format!("{name}({}): {e}", show_args(&args))),
                    Err(Stop::Endless) => cx.violation(&format!("{name} endless"), || format!("{name}({}): does not end", show_args(&args))),
                }
                cx.eval(hash_args(name, &args), !args.is_empty());
                cx.ev(if p.external {
                    "declared external"
                } else if plain {
                    "numbers only"
                } else {
                    "with texts"
                });
            }
            cx.ev("function");
        }
    }),
    // instances of generic declarations which the library implements
    unit("every instance", 1, move |cx| {
        for n in crate::st::syms::names() {
            let generic = n.split_once("__").map_or(false, |(g, _)| l.pous.get(g).map_or(false, |p| !p.generics.is_empty()));
            let declared = l.pous.get(n).map_or(false, |p| p.external);
            if generic || declared {
                cx.eval(crate::report::hash_str(n), true);
                if crate::st::syms::is_gone(n) {
                    cx.violation(&format!("{n} missing"), || format!("{n} is declared in the ST sources, but not exported by the library"));
                }
                cx.ev(if generic { "instance of a generic function is exported" } else { "declared function or block is exported" });
            }
        }
    })];
    run(
        o,
        units,
        &[
            "executed", "refused by the library", "declared external", "numbers only", "with texts", "function", "instance of a generic function is exported",
            "declared function or block is exported",
        ],
    )
}
