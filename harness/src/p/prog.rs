//! C37: ST programs which call the library: overloads are found by the types of the arguments, parameters by their names.
use super::datetime::{date_model, date_parts, real_ok, real_pair, tod_model, tod_parts};
use super::floats;
use super::st::*;
use crate::cal;
use crate::st::*;
use crate::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum N {
    I(i128),
    F(f64),
}
use N::{F, I};
impl N {
    fn i(self) -> i128 {
        match self {
            I(x) => x,
            F(_) => panic!("integer expected"),
        }
    }
    fn f(self) -> f64 {
        match self {
            F(x) => x,
            I(x) => x as f64,
        }
    }
}
/// judges what was delivered (None: refused), and says what was expected instead
type Judge = Box<dyn Fn(Option<N>) -> Result<(), String>>;
enum Want {
    By(Judge),
    I(i128),
    /// with a tolerance relative to the value
    F(f64, f64),
    Outs(Vec<i128>),
    Refused,
    /// not specified
    Open,
}
impl std::fmt::Debug for Want {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Want::By(j) => write!(f, "{}", j(None).err().unwrap_or("a refusal".into())),
            Want::I(x) => write!(f, "{x}"),
            Want::F(x, _) => write!(f, "{x:?}"),
            Want::Outs(x) => write!(f, "outputs {x:?}"),
            Want::Refused => write!(f, "a refusal"),
            Want::Open => write!(f, "anything"),
        }
    }
}
/// judged as C28 and C29 do
fn real(w: floats::Want, ok: impl Fn(Result<f64, ()>, &floats::Want) -> bool + 'static) -> Want {
    Want::By(Box::new(move |got| {
        let got = match got {
            Some(F(x)) => Ok(x),
            _ => Err(()),
        };
        if ok(got, &w) { Ok(()) } else { Err(floats::show_want(&w)) }
    }))
}
type Gen = Box<dyn Fn(&mut Rng) -> Vec<N> + Send + Sync>;
type Model = Box<dyn Fn(&[N]) -> Want + Send + Sync>;
struct Case {
    call: String,
    /// parameters: name, type of the program's variable
    ins: Vec<(&'static str, String)>,
    outs: Vec<(&'static str, String)>,
    ret: String,
    gen: Gen,
    model: Model,
    /// names of the programs' functions
    programs: Vec<String>,
}

const WHOLE: [&str; 6] = ["INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"];
const ALL: [&str; 8] = ["SINT", "USINT", "INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"];
const BITS: [&str; 4] = ["BYTE", "WORD", "DWORD", "LWORD"];

fn width(t: &str) -> (u32, bool) {
    shape(t).unwrap_or_else(|| match t {
        "TIME_OF_DAY" | "DATE_AND_TIME" => (64, true),
        _ => panic!("{t}"),
    })
}
fn num(t: &'static str) -> impl Fn(&mut Rng) -> N {
    move |r| {
        let s = width(t);
        I(match r.below(3) {
            0 => low_bits(r.next() as i128, s),
            1 => low_bits(r.range(-3, 12) as i128, s),
            _ => low_bits(r.int(), s),
        })
    }
}
fn swap(v: i128, w: u32) -> i128 {
    (0..w / 8).fold(0, |a, k| a | (v >> (8 * k) & 255) << (w - 8 - 8 * k))
}
fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    fn add(v: &mut Vec<Case>, call: &str, ins: &[(&'static str, &str)], outs: &[(&'static str, &str)], ret: &str, gen: Gen, model: Model) {
        let own = |x: &[(&'static str, &str)]| x.iter().map(|(n, t)| (*n, t.to_string())).collect();
        v.push(Case { call: call.into(), ins: own(ins), outs: own(outs), ret: ret.into(), gen, model, programs: vec![] });
    }
    // bit patterns
    for t in BITS {
        let (w, _) = width(t);
        for (k, f) in ["SHL", "SHR", "ROL", "ROR"].into_iter().enumerate() {
            let m: Model = Box::new(move |a| {
                let (x, n) = (a[0].i(), a[1].i() as u32);
                let m = (1i128 << w) - 1;
                let r = n % w;
                Want::I(match k {
                    0 => if n >= w { 0 } else { x << n & m },
                    1 => if n >= w { 0 } else { x >> n },
                    2 => (x << r | x >> (w - r)) & m,
                    _ => (x >> r | x << (w - r)) & m,
                })
            });
            let g = num(t);
            add(&mut v, f, &[("IN", t), ("n", "UDINT")], &[], t, Box::new(move |r| vec![g(r), I(if r.one_in(4) { r.next() as u32 as i128 } else { r.range(0, w as i64 + 2) as i128 })]), m);
        }
        let g = num(t);
        let m: Model = Box::new(move |a| Want::I((0..w / 4).all(|k| a[0].i() >> (4 * k) & 15 < 10) as i128));
        add(&mut v, "IS_VALID_BCD", &[("IN", t)], &[], "BOOL", Box::new(move |r| {
            let digits = (0..w / 4).fold(0, |a, _| a << 4 | r.range(0, 9) as i128);
            // a single digit which is none
            let wrong = (r.range(8, 15) as i128) << (4 * r.below(w as usize / 4));
            vec![match r.below(3) {
                0 => g(r),
                1 => I(digits),
                _ => I(digits | wrong),
            }]
        }), m);
    }
    for t in ["WORD", "DWORD", "LWORD", "INT", "UINT", "DINT", "UDINT", "LINT", "ULINT", "DATE", "TOD", "DT", "WCHAR"] {
        let s = width(t);
        for (f, swapped) in [("TO_BIG_ENDIAN", true), ("FROM_BIG_ENDIAN", false), ("TO_LITTLE_ENDIAN", false), ("FROM_LITTLE_ENDIAN", true)] {
            let g = num(t);
            add(&mut v, f, &[("in", t)], &[], t, Box::new(move |r| vec![g(r)]), Box::new(move |a| Want::I(if swapped { low_bits(swap(a[0].i() & ((1 << s.0) - 1), s.0), s) } else { a[0].i() })));
        }
    }
    // selection
    for t in ["SINT", "USINT", "INT", "UINT", "DINT", "UDINT", "LINT", "ULINT", "BYTE", "WORD", "DWORD", "LWORD", "BOOL", "CHAR", "WCHAR", "DATE", "TOD", "DT", "TIME"] {
        let g = num(t);
        let m: Model = Box::new(|a| if a[0].i() > a[2].i() { Want::Open } else { Want::I(a[1].i().clamp(a[0].i(), a[2].i())) });
        let gl: Gen = Box::new(move |r| {
            let (a, b, c) = (g(r), g(r), g(r));
            if a.i() <= c.i() { vec![a, b, c] } else { vec![c, b, a] }
        });
        add(&mut v, "LIMIT", &[("MIN", t), ("IN", t), ("MAX", t)], &[], t, gl, m);
        for n in [1usize, 2, 3, 5] {
            for (f, max) in [("MAX", true), ("MIN", false)] {
                let g = num(t);
                let ins: Vec<(&'static str, &str)> = (0..n).map(|_| ("", t)).collect();
                let m: Model = Box::new(move |a| Want::I(if max { a.iter().map(|x| x.i()).max().unwrap() } else { a.iter().map(|x| x.i()).min().unwrap() }));
                add(&mut v, f, &ins, &[], t, Box::new(move |r| (0..n).map(|_| g(r)).collect()), m);
            }
        }
    }
    for (t, single) in [("REAL", true), ("LREAL", false)] {
        let x = move |r: &mut Rng| loop {
            let x = if r.coin() { r.f01() * 100.0 - 50.0 } else { r.f64() };
            let x = if single { x as f32 as f64 } else { x };
            if !x.is_nan() {
                return F(x);
            }
        };
        let tol = if single { 1e-6 } else { 1e-13 };
        add(&mut v, "LIMIT", &[("MIN", t), ("IN", t), ("MAX", t)], &[], t, Box::new(move |r| {
            let (a, b, c) = (x(r), x(r), x(r));
            if a.f() <= c.f() { vec![a, b, c] } else { vec![c, b, a] }
        }), Box::new(|a| Want::F(a[1].f().max(a[0].f()).min(a[2].f()), 0.0)));
        for n in [2usize, 3, 5] {
            for (f, max) in [("MAX", true), ("MIN", false)] {
                let ins: Vec<(&'static str, &str)> = (0..n).map(|_| ("", t)).collect();
                add(&mut v, f, &ins, &[], t, Box::new(move |r| (0..n).map(|_| x(r)).collect()), Box::new(move |a| Want::F(a.iter().map(|x| x.f()).fold(if max { f64::NEG_INFINITY } else { f64::INFINITY }, |p, q| if max { p.max(q) } else { p.min(q) }), 0.0)));
            }
        }
        for f in floats::UN {
            let p = if matches!(f, "SIN" | "COS" | "TAN") { "rad" } else { "in" };
            add(&mut v, f, &[(p, t)], &[], t, Box::new(move |r| vec![F(floats::gen_for(f, r, single))]), Box::new(move |a| {
                real(floats::unary_model(f, a[0].f(), single), move |g, w| floats::judge_op(f, g, w, single))
            }));
        }
        add(&mut v, "ATAN2", &[("y", t), ("x", t)], &[], t, Box::new(move |r| vec![F(floats::gen_side(r, single)), F(floats::gen_side(r, single))]), Box::new(move |a| {
            real(floats::atan2_model(a[0].f(), a[1].f()), move |g, w| floats::judge(g, w, single, floats::TOL, 0.0))
        }));
        for f in ["TO_BIG_ENDIAN", "FROM_BIG_ENDIAN", "TO_LITTLE_ENDIAN", "FROM_LITTLE_ENDIAN"] {
            // kept: C25, which judges NaNs as well
            add(&mut v, f, &[("in", t)], &[], t, Box::new(move |r| vec![x(r)]), Box::new(move |a| {
                let w = a[0].f();
                Want::By(Box::new(move |g| match g {
                    Some(F(x)) if x.to_bits() == w.to_bits() => Ok(()),
                    _ => Err(format!("{w:?}")),
                }))
            }));
        }
        add(&mut v, "TRUNC", &[("IN", t)], &[], "LINT", Box::new(move |r| vec![x(r)]), Box::new(|a| if a[0].f().abs() < 9.2e18 { Want::I(a[0].f().trunc() as i128) } else { Want::Open }));
        add(&mut v, "ROUND", &[("in", t)], &[], t, Box::new(move |r| vec![if r.coin() { x(r) } else { F(r.range(-99, 99) as f64 / 2.0) }]), Box::new(|a| Want::F(floats::round_model(a[0].f()), 0.0)));
        add(&mut v, "ABS", &[("IN", t)], &[], t, Box::new(move |r| vec![x(r)]), Box::new(|a| Want::F(a[0].f().abs(), 0.0)));
        add(&mut v, "IS_VALID", &[("IN", t)], &[], "BOOL", Box::new(move |r| vec![if r.coin() { x(r) } else { F(if single { r.f32() as f64 } else { r.f64() }) }]), Box::new(|a| Want::I(a[0].f().is_finite() as i128)));
        for u in ALL {
            add(&mut v, "EXPT", &[("in1", t), ("in2", u)], &[], t, Box::new(move |r| vec![F(r.pick(&[0.5, 2.0, 1.5, 3.0, 1.0])), I(if r.one_in(4) { r.range(0, 70) } else { r.range(if width(u).1 { -6 } else { 0 }, 8) } as i128)]), Box::new(move |a| Want::F(a[0].f().powi(a[1].i() as i32), tol)));
        }
        add(&mut v, "EXPT", &[("in1", t), ("in2", "DINT")], &[], t, Box::new(move |r| {
            let x = floats::gen_base(r);
            vec![F(if single { x as f32 as f64 } else { x }), I(if r.one_in(4) { r.i32() as i128 } else { r.range(-40, 40) as i128 })]
        }), Box::new(move |a| {
            let (x, n) = (a[0].f(), a[1].i() as i32);
            // not judged: error of the multiplications
            real(floats::pow_model(x, n as f64, single), move |g, _| floats::powi_ok(x, n, single, g) != Some(false))
        }));
        for u in ["REAL", "LREAL"] {
            // the exponent of a REAL is a REAL
            let narrow = single || u == "REAL";
            add(&mut v, "EXPT", &[("in1", t), ("in2", u)], &[], t, Box::new(move |r| {
                let (x, y) = (floats::gen_base(r), floats::gen_exp(r));
                vec![F(if single { x as f32 as f64 } else { x }), F(if u == "REAL" { y as f32 as f64 } else { y })]
            }), Box::new(move |a| {
                let y = if narrow { a[1].f() as f32 as f64 } else { a[1].f() };
                real(floats::pow_model(a[0].f(), y, single), move |g, w| floats::judge(g, w, single, floats::TOL, 0.0))
            }));
        }
    }
    for t in ["SINT", "INT", "DINT", "LINT"] {
        let g = num(t);
        let lowest = -(1i128 << (width(t).0 - 1));
        add(&mut v, "ABS", &[("IN", t)], &[], t, Box::new(move |r| vec![g(r)]), Box::new(move |a| if a[0].i() == lowest { Want::Open } else { Want::I(a[0].i().abs()) }));
    }
    // parts of dates
    let fit = |x: Option<i128>| x.and_then(|x| i64::try_from(x).ok()).map_or(Want::Refused, |x| Want::I(x as i128));
    for t in ALL {
        let s = width(t);
        for (f, ret) in [("CONCAT_TOD", "TOD"), ("CONCAT_LTOD", "LTOD")] {
            let gen: Gen = Box::new(move |r| tod_parts(r).iter().map(|x| I(low_bits(*x, s))).collect());
            add(&mut v, f, &[("hour", t), ("minute", t), ("second", t), ("millisecond", t)], &[], ret, gen, Box::new(move |a| fit(tod_model(a[0].i(), a[1].i(), a[2].i(), a[3].i()).map(|x| x as i128))));
        }
    }
    for t in WHOLE {
        let s = width(t);
        let date = [("year", t), ("month", t), ("day", t)];
        let tod = [("hour", t), ("minute", t), ("second", t), ("millisecond", t)];
        let both = [&date[..], &tod[..]].concat();
        add(&mut v, "CONCAT_DATE", &date, &[], "DATE", Box::new(move |r| {
            let d = date_parts(r);
            [d.0, d.1, d.2].iter().map(|x| I(low_bits(*x, s))).collect()
        }), Box::new(move |a| fit(date_model(a[0].i(), a[1].i(), a[2].i()).map(|x| x as i128))));
        for (f, ret) in [("CONCAT_DT", "DT"), ("CONCAT_LDT", "LDT")] {
            add(&mut v, f, &both, &[], ret, Box::new(move |r| {
                let d = date_parts(r);
                let tods = if r.coin() { [12, 34, 56, 789] } else { tod_parts(r) };
                [d.0, d.1, d.2].iter().chain(&tods).map(|x| I(low_bits(*x, s))).collect()
            }), Box::new(move |a| fit(match (date_model(a[0].i(), a[1].i(), a[2].i()), tod_model(a[3].i(), a[4].i(), a[5].i(), a[6].i())) {
                (Some(a), Some(b)) => Some(a as i128 + b as i128),
                _ => None,
            })));
        }
        for (f, src, outs) in [("SPLIT_DATE", "DATE", &date[..]), ("SPLIT_TOD", "TOD", &tod[..]), ("SPLIT_LTOD", "LTOD", &tod[..]), ("SPLIT_DT", "DT", &both[..]), ("SPLIT_LDT", "LDT", &both[..])] {
            add(&mut v, f, &[("in", src)], outs, "INT", Box::new(|r| vec![I(cal::gen(r) as i128)]), Box::new(move |a| {
                let p = cal::split(a[0].i() as i64);
                let (d, t) = ([p.y as i128, p.mo as i128, p.d as i128], [p.h as i128, p.mi as i128, p.s as i128, (p.ns / 1_000_000) as i128]);
                Want::Outs(match f {
                    "SPLIT_DATE" => d.to_vec(),
                    "SPLIT_TOD" | "SPLIT_LTOD" => t.to_vec(),
                    _ => [&d[..], &t[..]].concat(),
                })
            }));
        }
    }
    let day = |t: i128| t.div_euclid(cal::DAY) * cal::DAY;
    for (f, tod, ret) in [("CONCAT_DATE_TOD", "TOD", "DT"), ("CONCAT_DATE_LTOD", "LTOD", "DT")] {
        add(&mut v, f, &[("date_input", "DATE"), ("tod_input", tod)], &[], ret, Box::new(|r| vec![I(cal::gen(r) as i128), I(cal::gen(r) as i128)]), Box::new(move |a| {
            fit(Some(day(a[0].i()) + a[1].i().rem_euclid(cal::DAY)))
        }));
    }
    add(&mut v, "DAY_OF_WEEK", &[("in", "DATE")], &[], "INT", Box::new(|r| vec![I(cal::gen(r) as i128)]), Box::new(|a| Want::I((a[0].i().div_euclid(cal::DAY) + 4).rem_euclid(7))));
    for (f, ret) in [("DATE_AND_TIME_TO_DATE", "DATE"), ("DATE_AND_TIME_TO_TIME_OF_DAY", "TOD")] {
        add(&mut v, f, &[("in", "DT")], &[], ret, Box::new(|r| vec![I(cal::gen(r) as i128)]), Box::new(move |a| match f {
            "DATE_AND_TIME_TO_DATE" if day(a[0].i()) < i64::MIN as i128 => Want::Open,
            "DATE_AND_TIME_TO_DATE" => Want::I(day(a[0].i())),
            _ => Want::I(a[0].i().rem_euclid(cal::DAY)),
        }));
    }
    // arithmetic with durations
    let pair: fn(&mut Rng) -> Vec<N> = |r| {
        let a = if r.coin() { r.i64() } else { cal::gen(r) };
        let b = if r.coin() { r.i64() } else { cal::gen(r) };
        vec![I(a as i128), I(b as i128)]
    };
    for (f, a, b, ret) in [
        ("ADD", "TIME", "TIME", "TIME"), ("ADD", "TOD", "TIME", "TOD"), ("ADD", "DT", "TIME", "DT"), ("SUB", "TIME", "TIME", "TIME"), ("SUB", "DATE", "DATE", "TIME"),
        ("SUB", "TOD", "TIME", "TOD"), ("SUB", "TOD", "TOD", "TIME"), ("SUB", "DT", "TIME", "DT"), ("SUB", "DT", "DT", "TIME"), ("ADD_TIME", "TIME", "TIME", "TIME"),
        ("ADD_TOD_TIME", "TOD", "TIME", "TOD"), ("ADD_DT_TIME", "DT", "TIME", "DT"), ("SUB_TIME", "TIME", "TIME", "TIME"), ("SUB_DATE_DATE", "DATE", "DATE", "TIME"),
        ("SUB_TOD_TIME", "TOD", "TIME", "TOD"), ("SUB_TOD_TOD", "TOD", "TOD", "TIME"), ("SUB_DT_TIME", "DT", "TIME", "DT"), ("SUB_DT_DT", "DT", "DT", "TIME"),
        ("ADD_LTIME", "LTIME", "LTIME", "LTIME"), ("ADD_LTOD_LTIME", "LTOD", "LTIME", "LTOD"), ("ADD_LDT_LTIME", "LDT", "LTIME", "LDT"), ("SUB_LTIME", "LTIME", "LTIME", "LTIME"),
        ("SUB_LDATE_LDATE", "LDATE", "LDATE", "LTIME"), ("SUB_LTOD_LTIME", "LTOD", "LTIME", "LTOD"), ("SUB_LTOD_LTOD", "LTOD", "LTOD", "LTIME"), ("SUB_LDT_LTIME", "LDT", "LTIME", "LDT"),
        ("SUB_LDT_LDT", "LDT", "LDT", "LTIME"),
    ] {
        let plus = f.starts_with("ADD");
        // a time of day is only judged if it does not leave the day: C11
        add(&mut v, f, &[("IN1", a), ("IN2", b)], &[], ret, Box::new(pair), Box::new(move |a| fit(Some(if plus { a[0].i() + a[1].i() } else { a[0].i() - a[1].i() }))));
    }
    for u in ALL {
        let g = num(u);
        let g: std::sync::Arc<dyn Fn(&mut Rng) -> N + Send + Sync> = std::sync::Arc::new(g);
        for (f, time) in [("MUL", "TIME"), ("MUL_TIME", "TIME"), ("MUL_LTIME", "LTIME"), ("DIV", "TIME"), ("DIV_TIME", "TIME"), ("DIV_LTIME", "LTIME")] {
            let mul = f.starts_with("MUL");
            let g = g.clone();
            add(&mut v, f, &[("IN1", time), ("IN2", u)], &[], time, Box::new(move |r| vec![I(if r.coin() { r.i64() as i128 } else { r.range(-1_000_000, 1_000_000) as i128 }), g(r)]), Box::new(move |a| {
                if mul { fit(Some(a[0].i() * a[1].i())) } else if a[1].i() == 0 { Want::Refused } else { fit(Some(a[0].i() / a[1].i())) }
            }));
        }
    }
    for (u, bits) in [("REAL", -22), ("LREAL", -50)] {
        for (f, time) in [("MUL", "TIME"), ("MUL_TIME", "TIME"), ("MUL_LTIME", "LTIME"), ("DIV", "TIME"), ("DIV_TIME", "TIME"), ("DIV_LTIME", "LTIME")] {
            let mul = f.starts_with("MUL");
            add(&mut v, f, &[("IN1", time), ("IN2", u)], &[], time, Box::new(move |r| {
                let (a, b) = real_pair(r);
                let b = if mul || b == 0.0 || r.one_in(3) { b } else { 1.0 / b };
                vec![I(a as i128), F(if bits == -22 { b as f32 as f64 } else { b })]
            }), Box::new(move |a| {
                let (a, b) = (a[0].i() as i64, a[1].f());
                Want::By(Box::new(move |got| real_ok(a, b, mul, bits, &got.map(|x| x.i() as i64).ok_or(())).map(|_| ())))
            }));
        }
    }
    // characters
    add(&mut v, "CHAR_TO_WCHAR", &[("in", "CHAR")], &[], "WCHAR", Box::new(|r| vec![I(r.range(0, 255) as i128)]), Box::new(|a| Want::I(a[0].i())));
    add(&mut v, "WCHAR_TO_CHAR", &[("in", "WCHAR")], &[], "CHAR", Box::new(|r| vec![I(r.range(0, 127) as i128)]), Box::new(|a| Want::I(a[0].i())));
    // conversions
    for (f, a, b) in int_conversions() {
        let g = num(a);
        let sb = width(b);
        let boolean = b == "BOOL" && matches!(a, "LINT" | "DINT");
        add(&mut v, &f, &[("in", a)], &[], b, Box::new(move |r| vec![g(r)]), Box::new(move |x| Want::I(if boolean { (x[0].i() != 0) as i128 } else { low_bits(x[0].i(), sb) })));
    }
    v
}

const TEXTS: [(&str, &[&str]); 6] =
    [("LEFT", &["IN", "L"]), ("RIGHT", &["IN", "L"]), ("MID", &["IN", "L", "P"]), ("INSERT", &["IN1", "IN2", "P"]), ("DELETE", &["IN", "L", "P"]), ("REPLACE", &["IN1", "IN2", "L", "P"])];

/// number of characters of long variables
const LONG: usize = 80_000;

/// The source text of the programs.
fn write(cases: &mut [Case]) -> String {
    let mut out = String::new();
    for (k, c) in cases.iter_mut().enumerate() {
        let named = c.ins.iter().all(|p| !p.0.is_empty());
        for variant in 0..if named { 3 } else { 1 } {
            let name = format!("PRG_{k}_{variant}");
            let mut args: Vec<String> = vec![];
            for (i, (n, _)) in c.ins.iter().enumerate() {
                args.push(if variant == 0 { format!("a{i}") } else { format!("{n} := a{i}") });
            }
            for (i, (n, _)) in c.outs.iter().enumerate() {
                args.push(if variant == 0 { format!("o{i}") } else { format!("{n} => o{i}") });
            }
            if variant == 2 {
                // as written by somebody who does not care for the order
                args.reverse();
            }
            let ins: String = c.ins.iter().enumerate().map(|(i, (_, t))| format!("    a{i} : {t};\n")).collect();
            let outs: String = c.outs.iter().enumerate().map(|(i, (_, t))| format!("    o{i} : {t};\n")).collect();
            let outs = if outs.is_empty() { outs } else { format!("VAR_OUTPUT\n{outs}END_VAR\n") };
            out += &format!("FUNCTION {name} : {}\nVAR_INPUT\n{ins}END_VAR\n{outs}    {name} := {}({});\nEND_FUNCTION\n", c.ret, c.call, args.join(", "));
            c.programs.push(name);
        }
    }
    for w in ["STRING", "WSTRING"] {
        let two = format!("VAR_INPUT {{ref}}\n    a0 : {w}[2048];\n    a1 : {w}[2048];\nEND_VAR\n");
        for (f, names) in TEXTS {
            for variant in 0..3 {
                let name = format!("TXT_{f}_{w}_{variant}");
                let vars: Vec<&str> = names.iter().map(|n| if n.starts_with("IN2") { "a1" } else if n.starts_with("IN") { "a0" } else if *n == "L" { "l" } else { "p" }).collect();
                let mut args: Vec<String> = names.iter().zip(vars).map(|(n, v)| if variant == 0 { v.to_string() } else { format!("{n} := {v}") }).collect();
                if variant == 2 {
                    args.reverse();
                }
                out += &format!("FUNCTION {name} : {w}[2048]\n{two}VAR_INPUT\n    l : DINT;\n    p : DINT;\nEND_VAR\n    {name} := {f}({});\nEND_FUNCTION\n", args.join(", "));
                // the same with a variable for the result
                let ext = format!("TXT_{f}_EXT_{w}_{variant}");
                match variant {
                    0 => args.push(ext.clone()),
                    1 => args.push(format!("OUT := {ext}")),
                    _ => args.insert(0, format!("OUT := {ext}")),
                }
                // which may hold another text
                let before = if variant == 0 { String::new() } else { format!("    CONCAT_EXT({ext}, a0, a1);\n") };
                out += &format!("FUNCTION {ext} : {w}[2048]\n{two}VAR_INPUT\n    l : DINT;\n    p : DINT;\nEND_VAR\n{before}    {f}_EXT({});\nEND_FUNCTION\n", args.join(", "));
            }
        }
        for (f, args, ret) in [("LEN", "IN := a0", "DINT"), ("FIND", "IN2 := a1, IN1 := a0", "DINT"), ("NE", "IN2 := a1, IN1 := a0", "BOOL"), ("EQ", "a0, a1", "BOOL"), ("LT", "a0, a1", "BOOL"), ("GT", "a0, a1", "BOOL"), ("LE", "a0, a1", "BOOL"), ("GE", "a0, a1", "BOOL")] {
            out += &format!("FUNCTION TXT_{f}_{w} : {ret}\n{two}    TXT_{f}_{w} := {f}({args});\nEND_FUNCTION\n");
        }
        // declared by the program, longer than any INT
        let long = format!("VAR_INPUT {{ref}}\n    a0 : {w}[{LONG}];\n    a1 : {w}[{LONG}];\nEND_VAR\n");
        for (f, args, ret, ins) in [("LEN", "IN := a0", "DINT", ""), ("FIND", "IN1 := a0, IN2 := a1", "DINT", ""), ("MID_EXT", "IN := a0, P := p, L := l, OUT := LONG_MID_EXT", "TEXT", "VAR_INPUT\n    l : DINT;\n    p : DINT;\nEND_VAR\n")] {
            let name = format!("LONG_{f}_{w}");
            let args = args.replace("LONG_MID_EXT", &name);
            let (ret, assign) = if ret == "TEXT" { (format!("{w}[{LONG}]"), String::new()) } else { (ret.to_string(), format!("{name} := ")) };
            out += &format!("FUNCTION {name} : {ret}\n{long}{ins}    {assign}{f}({args});\nEND_FUNCTION\n");
        }
        out += &format!("FUNCTION TXT_CONCAT_EXT_{w} : {w}[2048]\n{two}    CONCAT_EXT(TXT_CONCAT_EXT_{w}, a0, a1, a0);\nEND_FUNCTION\n");
        out += &format!("FUNCTION TXT_CONCAT_{w} : {w}[2048]\n{two}    TXT_CONCAT_{w} := CONCAT(a0, a1, a0);\nEND_FUNCTION\n");
    }
    out
}

pub fn c37(o: Opts) -> ! {
    let mut l = match parse_dir(&o.st_dir) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("the ST sources are not understood: {e}");
            std::process::exit(2)
        }
    };
    let mut all = cases();
    let source = write(&mut all);
    if let Err(e) = parse_text(&mut l, &source) {
        eprintln!("the programs are not understood: {e}\n{source}");
        std::process::exit(2)
    }
    if let Some((n, e)) = l.unknown.iter().find(|u| u.0.starts_with("PRG_") || u.0.starts_with("TXT_") || u.0.starts_with("LONG_")) {
        eprintln!("the program {n} is not understood: {e}");
        std::process::exit(2)
    }
    let l: &'static Lib = Box::leak(Box::new(l));
    let all: &'static [Case] = Box::leak(all.into_boxed_slice());
    let units = vec![
        unit("numbers", 16, move |cx| {
            let mut m = Machine::new(l);
            for (k, c) in all.iter().enumerate().skip(cx.chunk).step_by(16) {
                for i in 0..cx.n(200) {
                    if cx.stop() {
                        return;
                    }
                    let values = (c.gen)(&mut cx.rng);
                    let want = (c.model)(&values);
                    let mut args: Vec<Arg> = values
                        .iter()
                        .map(|v| match v {
                            I(x) => Arg::I(*x),
                            F(x) => Arg::F(*x),
                        })
                        .collect();
                    args.extend(c.outs.iter().map(|_| Arg::Out));
                    for (variant, p) in c.programs.iter().enumerate() {
                        let shown = || {
                            let names: Vec<String> = c.ins.iter().zip(&values).map(|((n, t), v)| format!("{n}{} {v:?} of {t}", if variant > 0 { " :=" } else { "" })).collect();
                            format!("{}({})", c.call, names.join(", "))
                        };
                        m.names_of_instance = cx.rng.coin();
                        let got = match m.exec(p, &args) {
                            Ok(x) => Ok(x),
                            Err(Stop::Refused) => Err(()),
                            Err(Stop::Missing(s)) => {
                                cx.violation(&format!("{} missing", c.call), || format!("{}: there is no {s}", shown()));
                                break;
                            }
                            Err(Stop::Memory(e)) => {
                                cx.violation(&format!("{} memory", c.call), || format!("{}: {e}", shown()));
                                break;
                            }
                            Err(Stop::Endless) => {
                                cx.violation(&format!("{} endless", c.call), || format!("{}: does not end", shown()));
                                break;
                            }
                            Err(Stop::Unsupported(_) | Stop::Unspecified) => {
                                cx.ev("not judged: not understood");
                                continue;
                            }
                        };
                        let ok = match (&got, &want) {
                            (_, Want::Open) => continue,
                            (Ok((Res::I(a), _)), Want::I(b)) => a == b,
                            (Ok((Res::I(a), _)), Want::By(j)) => j(Some(I(*a))).is_ok(),
                            (Ok((Res::F(a), _)), Want::By(j)) => j(Some(F(*a))).is_ok(),
                            (Err(()), Want::By(j)) => j(None).is_ok(),
                            (Ok((Res::F(a), _)), Want::F(b, tol)) => a == b || (a - b).abs() <= tol * b.abs().max(1.0),
                            (Ok((_, v)), Want::Outs(w)) => v.len() == w.len() + 1 && v[1..].iter().zip(w).all(|(a, b)| *a == Res::I(*b)),
                            (Err(()), Want::Refused) => true,
                            _ => false,
                        };
                        cx.check(ok, &c.call, || format!("{}: got {got:?}, expected {want:?}", shown()));
                        let mut h = vec![k as u64, variant as u64];
                        h.extend(values.iter().map(|v| match v {
                            I(x) => *x as u64,
                            F(x) => x.to_bits(),
                        }));
                        cx.eval(hashes(&h), true);
                        cx.ev(match variant {
                            _ if c.ins[0].0.is_empty() => "variadic call",
                            0 => "call by position",
                            1 => "call by name",
                            _ => "call by name in another order",
                        });
                        if got.is_err() {
                            cx.ev("refused");
                        }
                        if i == 0 && variant == 2 && c.ins.len() > 1 {
                            cx.sample(|| format!("{} = {want:?}", shown()));
                        }
                    }
                }
                cx.ev("overload");
            }
        }),
        unit("texts", 16, move |cx| {
            let mut m = Machine::new(l);
            for _ in 0..cx.n(400) {
                if cx.stop() {
                    return;
                }
                for wide in [false, true] {
                    let w = if wide { "WSTRING" } else { "STRING" };
                    let a = short_text(&mut cx.rng, 500, wide);
                    let b = if cx.rng.coin() || a.is_empty() {
                        short_text(&mut cx.rng, 500, wide)
                    } else {
                        let x = cx.rng.below(a.len());
                        let y = x + cx.rng.below(a.len() - x + 1);
                        a[x..y].to_vec()
                    };
                    let (ta, tb) = (Text::new(&mut cx.rng, &a, wide, 2048), Text::new(&mut cx.rng, &b, wide, 2048));
                    let n = a.len() as i64;
                    for (f, _) in TEXTS {
                        let p = if f == "INSERT" { cx.rng.range(0, n + 1) } else { cx.rng.range(1, n.max(1)) };
                        let k = cx.rng.range(0, n + 1 - if matches!(f, "LEFT" | "RIGHT" | "INSERT") { 0 } else { p.min(n) } + 1);
                        let want = text_model(f, &a, &b, k, p);
                        let variant = cx.rng.below(3);
                        let ext = cx.rng.one_in(3);
                        let name = format!("TXT_{f}{}_{w}_{variant}", if ext { "_EXT" } else { "" });
                        m.names_of_instance = cx.rng.coin();
                        let args = [ta.arg(), tb.arg(), Arg::I(k as i128), Arg::I(p as i128)];
                        if judge_text(cx, &mut m, &name, &args, want.as_deref(), wide) {
                            cx.eval(hash_args(&name, &args), true);
                            cx.ev(if variant == 0 { "text by position" } else { "text by name" });
                            if ext {
                                cx.ev("text into a variable");
                            }
                        }
                    }
                    let args = [ta.arg(), tb.arg()];
                    let o = if wide { s16(&a).cmp(&s16(&b)) } else { s8(&a).cmp(&s8(&b)) };
                    for (f, want) in [("EQ", o.is_eq()), ("NE", o.is_ne()), ("LT", o.is_lt()), ("GT", o.is_gt()), ("LE", o.is_le()), ("GE", o.is_ge())] {
                        let name = format!("TXT_{f}_{w}");
                        if judge(cx, &mut m, &name, &args, super::st::Want::I(want as i128)) {
                            cx.eval(hash_args(&name, &args), true);
                            cx.ev("comparison");
                        }
                    }
                    if !b.is_empty() {
                        let at = a.windows(b.len()).position(|x| x == &b[..]).map_or(0, |x| x + 1);
                        let name = format!("TXT_FIND_{w}");
                        if judge(cx, &mut m, &name, &args, super::st::Want::I(at as i128)) {
                            cx.eval(hash_args(&name, &args), true);
                            cx.ev(if at > 0 { "found" } else { "not found" });
                        }
                    }
                    let name = format!("TXT_LEN_{w}");
                    if judge(cx, &mut m, &name, &args, super::st::Want::I(n as i128)) {
                        cx.eval(hash_args(&name, &args), true);
                        cx.ev("length");
                    }
                    let name = format!("TXT_CONCAT{}_{w}", if cx.rng.one_in(3) { "_EXT" } else { "" });
                    if judge_text(cx, &mut m, &name, &args, Some(&[&a[..], &b[..], &a[..]].concat()), wide) {
                        cx.eval(hash_args(&name, &args), true);
                        cx.ev("concatenation");
                    }
                }
            }
        }),
        unit("long texts", 8, move |cx| {
            let mut m = Machine::new(l);
            for _ in 0..cx.n(12) {
                if cx.stop() {
                    return;
                }
                for wide in [false, true] {
                    let w = if wide { "WSTRING" } else { "STRING" };
                    let n = cx.rng.pick(&[32_767, 32_768, 40_000, 65_535, 65_536, 70_000]) + cx.rng.below(3);
                    // characters of one unit; the last ones occur only once
                    let mut a: Vec<char> = (0..n - 8).map(|_| cx.rng.range(b'a' as i64, b'y' as i64) as u8 as char).collect();
                    a.push('z');
                    a.extend((0..7).map(|_| cx.rng.range(b'A' as i64, b'Z' as i64) as u8 as char));
                    let x = if cx.rng.coin() { n - 8 } else { cx.rng.below(n - 20) };
                    let b = a[x..x + 8].to_vec();
                    let (ta, tb) = (Text::new(&mut cx.rng, &a, wide, LONG), Text::new(&mut cx.rng, &b, wide, LONG));
                    let args = [ta.arg(), tb.arg()];
                    let at = a.windows(8).position(|x| x == &b[..]).unwrap() + 1;
                    for (f, want) in [("LEN", n), ("FIND", at)] {
                        let name = format!("LONG_{f}_{w}");
                        if judge(cx, &mut m, &name, &args, super::st::Want::I(want as i128)) {
                            cx.eval(hash_args(&name, &args), true);
                            cx.ev("long text");
                        }
                    }
                    let p = cx.rng.range(1, n as i64);
                    let k = cx.rng.range(0, n as i64 + 1 - p);
                    let name = format!("LONG_MID_EXT_{w}");
                    let args = [ta.arg(), tb.arg(), Arg::I(k as i128), Arg::I(p as i128)];
                    if judge_text(cx, &mut m, &name, &args, text_model("MID", &a, &b, k, p).as_deref(), wide) {
                        cx.eval(hash_args(&name, &args), true);
                        cx.ev("part of a long text");
                    }
                }
            }
        }),
    ];
    run(
        o,
        units,
        &[
            "variadic call", "call by position", "call by name", "call by name in another order", "refused", "overload", "text by position", "text by name", "comparison", "found", "not found", "length",
            "concatenation", "text into a variable", "long text", "part of a long text",
        ],
    )
}
