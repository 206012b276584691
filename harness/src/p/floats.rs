//! C28, C29: elementary functions, rounding, powers. The oracle computes with fixed point numbers of
//! several hundred bits, independently of any floating point library.
use crate::big;
use crate::ffi::*;
use crate::hp;
use crate::*;
use num::{BigInt, BigRational, Integer, One, Signed, ToPrimitive};

#[derive(Debug, Clone)]
pub enum Want {
    /// A real number, and an upper bound of the absolute error of this value
    Num(hp::Hp),
    Nan,
    Exact(f64),
}

fn f64_info(single: bool) -> (i32, i32, f64) {
    // mantissa bits, minimal exponent, largest value
    if single {
        (24, -149, f32::MAX as f64)
    } else {
        (53, -1074, f64::MAX)
    }
}

/// |got - want| <= tol ulp
fn close(got: f64, want: &hp::Hp, single: bool, tol: i64, rel: f64) -> bool {
    close_halves(got, want, single, 2 * tol, rel)
}
/// |got - want| <= tol / 2 ulp
fn close_halves(got: f64, want: &hp::Hp, single: bool, tol: i64, rel: f64) -> bool {
    let (mant, emin, max) = f64_info(single);
    if got.is_nan() {
        return false;
    }
    if want.is_zero() {
        return got == 0.0;
    }
    let e = (want.exp2() - mant as i64 + 1).max(emin as i64);
    let mut t = hp::Hp::pow2(e).half().mul_int(tol);
    if rel > 0.0 {
        t = t.add(&want.abs().mul(&hp::Hp::from_f64(rel)));
    }
    if got.is_infinite() {
        // overflow: the exact value is about as large as the largest number
        return (got > 0.0) == !want.neg() && want.abs().add(&t).cmp(&hp::Hp::from_f64(max)) != std::cmp::Ordering::Less;
    }
    hp::Hp::from_f64(got).sub(want).abs().cmp(&t) != std::cmp::Ordering::Greater
}

pub fn judge(got: Result<f64, ()>, want: &Want, single: bool, tol: i64, rel: f64) -> bool {
    let Ok(g) = got else { return false };
    match want {
        Want::Nan => g.is_nan(),
        Want::Exact(v) => g == *v && (*v != 0.0 || g.is_sign_negative() == v.is_sign_negative()),
        Want::Num(x) => close(g, x, single, tol, rel),
    }
}
pub fn show_want(w: &Want) -> String {
    match w {
        Want::Nan => "NaN".into(),
        Want::Exact(v) => format!("{v:?}"),
        Want::Num(x) => format!("about {:e}", x.to_f64()),
    }
}

pub const UN: [&str; 10] = ["SQRT", "LN", "LOG", "EXP", "SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN"];

/// k when x is 10^k, exactly; for REAL, when it is the REAL of 10^k (its logarithm differs from k by far less than k's precision)
fn power_of_ten(x: f64, single: bool) -> Option<f64> {
    if single {
        return (0..=38).find(|k| x == format!("1e{k}").parse::<f32>().unwrap() as f64).map(|k| k as f64);
    }
    let (mut p, mut k) = (1u128, 0.0);
    while p <= 10_000_000_000_000_000_000_000 {
        // all of these are representable
        if x == p as f64 {
            return Some(k);
        }
        p *= 10;
        k += 1.0;
    }
    None
}

/// the best result there is for SQRT, which IEEE 754 asks for; a few units for the others
pub fn judge_op(op: &str, got: Result<f64, ()>, want: &Want, single: bool) -> bool {
    match (op, want, &got) {
        ("SQRT", Want::Num(w), Ok(g)) => close_halves(*g, w, single, 1, 0.0),
        _ => judge(got, want, single, TOL, 0.0),
    }
}

pub fn unary_model(op: &str, x: f64, single: bool) -> Want {
    use Want::*;
    let inf = f64::INFINITY;
    if x.is_nan() {
        return Nan;
    }
    match op {
        "SQRT" => {
            if x == 0.0 || x == inf {
                Exact(x)
            } else if x < 0.0 {
                Nan
            } else {
                Num(hp::sqrt(x))
            }
        }
        "LN" | "LOG" => {
            if x == 0.0 {
                Exact(-inf)
            } else if x < 0.0 {
                Nan
            } else if x == inf {
                Exact(inf)
            } else if x == 1.0 {
                Exact(0.0)
            } else if let Some(k) = power_of_ten(x, single).filter(|_| op == "LOG") {
                // what a user counts digits with
                Exact(k)
            } else {
                Num(if op == "LN" { hp::ln(x) } else { hp::log10(x) })
            }
        }
        "EXP" => {
            if x == inf {
                Exact(inf)
            } else if x == -inf {
                Exact(0.0)
            } else if x == 0.0 {
                Exact(1.0)
            } else if x > 720.0 || (single && x > 100.0) {
                Exact(inf)
            } else if x < -760.0 || (single && x < -120.0) {
                Exact(0.0)
            } else {
                Num(hp::exp(x))
            }
        }
        "SIN" | "COS" | "TAN" => {
            if x.is_infinite() {
                Nan
            } else if x == 0.0 {
                Exact(if op == "COS" { 1.0 } else { x })
            } else {
                let (s, c) = hp::sin_cos(x);
                Num(match op {
                    "SIN" => s,
                    "COS" => c,
                    _ => s.div(&c),
                })
            }
        }
        "ASIN" | "ACOS" => {
            if x.abs() > 1.0 {
                Nan
            } else if x == 0.0 && op == "ASIN" {
                Exact(x)
            } else if x == 1.0 && op == "ACOS" {
                Exact(0.0)
            } else {
                Num(if op == "ASIN" { hp::asin(x) } else { hp::acos(x) })
            }
        }
        _ => {
            if x == 0.0 {
                Exact(x)
            } else if x.is_infinite() {
                let h = hp::pi().half();
                Num(if x < 0.0 { h.minus() } else { h })
            } else {
                Num(hp::atan(x))
            }
        }
    }
}

pub fn atan2_model(y: f64, x: f64) -> Want {
    use Want::*;
    if y.is_nan() || x.is_nan() {
        return Nan;
    }
    let pi = hp::pi();
    let sg = |v: hp::Hp| Num(if y.is_sign_negative() { v.minus() } else { v });
    if y == 0.0 {
        return if x.is_sign_negative() { sg(pi) } else { Exact(y) };
    }
    if x == 0.0 {
        return sg(pi.half());
    }
    if y.is_infinite() {
        return if x.is_infinite() {
            if x > 0.0 { sg(pi.half().half()) } else { sg(pi.half().half().mul_int(3)) }
        } else {
            sg(pi.half())
        };
    }
    if x.is_infinite() {
        return if x > 0.0 { Exact(if y.is_sign_negative() { -0.0 } else { 0.0 }) } else { sg(pi) };
    }
    sg(hp::atan_quotient(y.abs(), x))
}

pub fn gen_for(op: &str, r: &mut gen::Rng, single: bool) -> f64 {
    let v = match op {
        "ASIN" | "ACOS" => match r.below(6) {
            0 => r.f64(),
            1 => r.pick(&[1.0, -1.0, 0.5, -0.5, 0.70710678118654752, 0.0, -0.0, 1e-300, 1e-10]),
            2 => 1.0 - r.f01() * 10f64.powi(-(r.below(16) as i32)),
            3 => -1.0 + r.f01() * 10f64.powi(-(r.below(16) as i32)),
            _ => r.f01() * 2.0 - 1.0,
        },
        "EXP" => match r.below(5) {
            0 => r.f64(),
            1 => (r.f01() * 2.0 - 1.0) * 720.0,
            2 => r.pick(&[709.78, 709.7827, -745.13, -745.2, 88.72, -103.97, 1.0, -1.0, 88.0, -87.3, 710.0]) * (1.0 + (r.f01() - 0.5) * 1e-3),
            3 => (r.f01() * 2.0 - 1.0) * 10f64.powi(-(r.below(12) as i32)),
            _ => (r.f01() * 2.0 - 1.0) * 90.0,
        },
        "SIN" | "COS" | "TAN" => match r.below(6) {
            0 => r.f64(),
            1 => r.range(-1000, 1000) as f64 * std::f64::consts::FRAC_PI_4,
            2 => (r.f01() * 2.0 - 1.0) * 10f64.powi(r.below(20) as i32),
            3 => (r.f01() * 2.0 - 1.0) * 10f64.powi(-(r.below(20) as i32)),
            _ => (r.f01() * 2.0 - 1.0) * 10.0,
        },
        "LN" | "LOG" | "SQRT" => {
            let v = match r.below(8) {
                0 => r.f64(),
                1 => 10f64.powi(r.range(-30, 30) as i32),
                6 | 7 => 10u128.pow(r.below(if single { 39 } else { 23 }) as u32) as f64,
                2 => 1.0 + (r.f01() - 0.5) * 10f64.powi(-(r.below(15) as i32)),
                3 => 2f64.powi(r.range(-1000, 1000) as i32),
                4 => r.below(1000) as f64,
                _ => r.f01() * 10f64.powi(r.range(-40, 40) as i32),
            };
            if r.one_in(12) { v } else { v.abs() }
        }
        _ => match r.below(4) {
            0 => r.f64(),
            1 => (r.f01() * 2.0 - 1.0) * 10f64.powi(r.range(-20, 20) as i32),
            2 => r.pick(&[1.0, -1.0, 0.41421356237309503, 2.414213562373095]),
            _ => (r.f01() * 2.0 - 1.0) * 4.0,
        },
    };
    if single {
        // not too small for the reference
        v as f32 as f64
    } else {
        v
    }
}

/// an operand of ATAN2
pub fn gen_side(r: &mut gen::Rng, single: bool) -> f64 {
    let v = match r.below(5) {
        0 => r.f64(),
        1 => r.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY]),
        2 => (r.f01() * 2.0 - 1.0) * 10f64.powi(r.range(-20, 20) as i32),
        _ => (r.f01() * 2.0 - 1.0) * 4.0,
    };
    if single { v as f32 as f64 } else { v }
}

type U64 = unsafe extern "C-unwind" fn(f64) -> f64;
type U32 = unsafe extern "C-unwind" fn(f32) -> f32;
const U64S: [(&str, U64); 10] = [
    ("SQRT__LREAL", SQRT__LREAL),
    ("LN__LREAL", LN__LREAL),
    ("LOG__LREAL", LOG__LREAL),
    ("EXP__LREAL", EXP__LREAL),
    ("SIN__LREAL", SIN__LREAL),
    ("COS__LREAL", COS__LREAL),
    ("TAN__LREAL", TAN__LREAL),
    ("ASIN__LREAL", ASIN__LREAL),
    ("ACOS__LREAL", ACOS__LREAL),
    ("ATAN__LREAL", ATAN__LREAL),
];
const U32S: [(&str, U32); 10] = [
    ("SQRT__REAL", SQRT__REAL),
    ("LN__REAL", LN__REAL),
    ("LOG__REAL", LOG__REAL),
    ("EXP__REAL", EXP__REAL),
    ("SIN__REAL", SIN__REAL),
    ("COS__REAL", COS__REAL),
    ("TAN__REAL", TAN__REAL),
    ("ASIN__REAL", ASIN__REAL),
    ("ACOS__REAL", ACOS__REAL),
    ("ATAN__REAL", ATAN__REAL),
];

pub const TOL: i64 = 3;

fn kind(w: &Want) -> &'static str {
    match w {
        Want::Nan => "no result (NaN)",
        Want::Exact(v) if v.is_infinite() => "infinite result",
        Want::Exact(_) => "exact result",
        Want::Num(_) => "finite result",
    }
}

fn elementary(cx: &mut Ctx) {
    for i in 0..cx.n(300) {
        if cx.stop() {
            return;
        }
        for k in 0..10 {
            let op = UN[k];
            let x = gen_for(op, &mut cx.rng, false);
            let (name, f) = U64S[k];
            let want = unary_model(op, x, false);
            let got = unsafe { call(name, &[x.to_bits()], || f(x)) };
            cx.eval(hashes(&[hash_str(name), x.to_bits()]), !x.is_nan());
            cx.ev(name);
            cx.ev(kind(&want));
            cx.check(judge_op(op, got, &want, false), name, || format!("{name}({x:?}): got {got:?}, expected {}", show_want(&want)));
            if i < 1 {
                cx.sample(|| format!("{name}({x:?}) = {got:?}, expected {}", show_want(&want)));
            }
            let x = gen_for(op, &mut cx.rng, true);
            let (name, f) = U32S[k];
            let want = unary_model(op, x, true);
            let got = unsafe { call(name, &[(x as f32).to_bits() as u64], || f(x as f32)) }.map(|v| v as f64);
            cx.eval(hashes(&[hash_str(name), x.to_bits()]), !x.is_nan());
            cx.ev(name);
            cx.check(judge_op(op, got, &want, true), name, || format!("{name}({x:?}): got {got:?}, expected {}", show_want(&want)));
        }
        let r = &mut cx.rng;
        let mut p = |s| gen_side(r, s);
        let (y, x) = (p(false), p(false));
        let (y3, x3) = (p(true), p(true));
        let want = atan2_model(y, x);
        let got = unsafe { call("ATAN2__LREAL", &[y.to_bits(), x.to_bits()], || ATAN2__LREAL(y, x)) };
        cx.eval(hashes(&[77, y.to_bits(), x.to_bits()]), true);
        cx.ev("ATAN2__LREAL");
        cx.check(judge(got, &want, false, TOL, 0.0), "ATAN2__LREAL", || format!("ATAN2__LREAL({y:?}, {x:?}): got {got:?}, expected {}", show_want(&want)));
        let want = atan2_model(y3, x3);
        let got = unsafe { call("ATAN2__REAL", &[y3.to_bits(), x3.to_bits()], || ATAN2__REAL(y3 as f32, x3 as f32)) }.map(|v| v as f64);
        cx.eval(hashes(&[78, y3.to_bits(), x3.to_bits()]), true);
        cx.ev("ATAN2__REAL");
        cx.check(judge(got, &want, true, TOL, 0.0), "ATAN2__REAL", || format!("ATAN2__REAL({y3:?}, {x3:?}): got {got:?}, expected {}", show_want(&want)));
    }
}

/// Half away from zero, exactly
pub fn round_model(x: f64) -> f64 {
    if !x.is_finite() {
        return x;
    }
    if x.abs() >= 4503599627370496.0 {
        return x;
    }
    let e = big::exact(x.abs()) + BigRational::new(BigInt::one(), BigInt::from(2));
    let v = e.numer().div_floor(e.denom()).to_u64().unwrap() as f64;
    if x < 0.0 { -v } else { v }
}
fn rounding(cx: &mut Ctx) {
    for i in 0..cx.n(12_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let x = match r.below(6) {
            0 => r.f64(),
            1 => r.range(-1_000_000, 1_000_000) as f64 + 0.5,
            2 => {
                let k = r.below(54);
                let b = ((r.next() >> (64 - 1 - k)) as f64 + 0.5).to_bits();
                let v = f64::from_bits((b as i64 + r.range(-1, 1)) as u64);
                if r.coin() { -v } else { v }
            }
            3 => r.pick(&[0.5, -0.5, 0.49999999999999994, -0.49999999999999994, 1.5, 2.5, 4503599627370495.5, 4503599627370497.0, 9007199254740991.0, 0.5000000000000001]),
            4 => (r.f01() - 0.5) * 1e6,
            _ => (r.f01() - 0.5) * 10f64.powi(r.below(20) as i32),
        };
        let same = |a: Result<f64, ()>, b: f64| a.map_or(false, |a| a == b || a.is_nan() && b.is_nan());
        let want = round_model(x);
        let got = unsafe { call("ROUND__LREAL", &[x.to_bits()], || ROUND__LREAL(x)) };
        cx.eval(hashes(&[5, x.to_bits()]), x.fract() != 0.0);
        cx.ev(if x.fract().abs() == 0.5 { "half" } else if x.fract() == 0.0 { "integral" } else { "fraction" });
        cx.check(same(got, want), "ROUND__LREAL", || format!("ROUND__LREAL({x:?}): got {got:?}, expected {want:?}"));
        if i < 2 {
            cx.sample(|| format!("ROUND__LREAL({x:?}) = {want:?}"));
        }
        let r = &mut cx.rng;
        let y = match r.below(4) {
            0 => r.f32(),
            1 => {
                let k = r.below(25);
                let b = ((r.next() >> (64 - 1 - k)) as f32 + 0.5).to_bits();
                f32::from_bits((b as i32 + r.range(-1, 1) as i32) as u32) * if r.coin() { -1.0 } else { 1.0 }
            }
            2 => r.pick(&[0.5f32, -0.5, 0.49999997, -0.49999997, 8388607.5, 8388609.0, 16777215.0, 2.5]),
            _ => x as f32,
        };
        let want = round_model(y as f64);
        let got = unsafe { call("ROUND__REAL", &[y.to_bits() as u64], || ROUND__REAL(y)) }.map(|v| v as f64);
        cx.eval(hashes(&[6, y.to_bits() as u64]), y.fract() != 0.0);
        cx.ev("ROUND__REAL");
        cx.check(same(got, want), "ROUND__REAL", || format!("ROUND__REAL({y:?}): got {got:?}, expected {want:?}"));
    }
}
fn constants(cx: &mut Ctx) {
    let pi = hp::pi();
    let e = hp::exp(1.0);
    let t: [(&'static str, f64, hp::Hp, bool); 8] = unsafe {
        [
            ("PI_LREAL", PI_LREAL, pi.clone(), false),
            ("PI_REAL", PI_REAL as f64, pi.clone(), true),
            ("FRAC_PI_2_LREAL", FRAC_PI_2_LREAL, pi.half(), false),
            ("FRAC_PI_2_REAL", FRAC_PI_2_REAL as f64, pi.half(), true),
            ("FRAC_PI_4_LREAL", FRAC_PI_4_LREAL, pi.half().half(), false),
            ("FRAC_PI_4_REAL", FRAC_PI_4_REAL as f64, pi.half().half(), true),
            ("E_REAL", E_REAL as f64, e.clone(), true),
            ("E_LREAL", E_LREAL, e, false),
        ]
    };
    for (n, v, w, single) in t {
        // correctly rounded: half an ulp
        cx.ev("constant");
        cx.eval(hash_str(n), true);
        let ok = if single { big::nearest_f32(&w.to_ratio(), v as f32) } else { big::nearest_f64(&w.to_ratio(), v) };
        cx.check(ok, n, || format!("{n} = {v:?}, expected the number nearest to {:?}", w.to_f64()));
    }
}
pub fn c28(o: Opts) -> ! {
    let units = vec![unit("elementary", 32, elementary), unit("rounding", 16, rounding), unit("constants", 1, constants)];
    let mut req: Vec<&'static str> = vec!["half", "integral", "fraction", "ROUND__REAL", "constant", "no result (NaN)", "infinite result", "exact result", "finite result", "ATAN2__REAL", "ATAN2__LREAL"];
    req.extend(U64S.iter().map(|x| x.0));
    req.extend(U32S.iter().map(|x| x.0));
    run(o, units, &req)
}

// ---------------------------------------------------------------------------------------------- C29

/// x to the power of y, for the special cases of IEEE 754
pub fn pow_model(x: f64, y: f64, single: bool) -> Want {
    use Want::*;
    let inf = f64::INFINITY;
    if y == 0.0 || x == 1.0 {
        return Exact(1.0);
    }
    if x.is_nan() || y.is_nan() {
        return Nan;
    }
    let integral = y.is_finite() && y.fract() == 0.0;
    let odd = integral && y.abs() < 9.1e15 && (y.abs() as u64) % 2 == 1;
    let sign = |v: f64| if odd && x.is_sign_negative() { -v } else { v };
    if x == 0.0 {
        return Exact(if y < 0.0 { sign(inf) } else { sign(0.0) });
    }
    if y.is_infinite() {
        return Exact(if x.abs() == 1.0 {
            1.0
        } else if (x.abs() > 1.0) == (y > 0.0) {
            inf
        } else {
            0.0
        });
    }
    if x.is_infinite() {
        return Exact(if y > 0.0 { sign(inf) } else { sign(0.0) });
    }
    if x < 0.0 && !integral {
        return Nan;
    }
    if y == 1.0 {
        return Exact(x);
    }
    // size of the result
    let l = x.abs().log2() * y;
    let (hi, lo) = if single { (140.0, -160.0) } else { (1030.0, -1085.0) };
    if l > hi {
        return Exact(sign(inf));
    }
    if l < lo {
        return Exact(sign(0.0));
    }
    let v = hp::pow(x.abs(), y);
    Num(if odd && x < 0.0 { v.minus() } else { v })
}

pub fn gen_base(r: &mut gen::Rng) -> f64 {
    match r.below(8) {
        0 => r.f64(),
        1 => r.range(-20, 20) as f64,
        2 => r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 10.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        3 => 1.0 + (r.f01() - 0.5) * 10f64.powi(-(r.below(9) as i32)),
        4 => (r.f01() * 2.0 - 1.0) * 10f64.powi(r.range(-30, 30) as i32),
        5 => -(1.0 + r.f01()),
        _ => r.f01() * 10.0,
    }
}
pub fn gen_exp(r: &mut gen::Rng) -> f64 {
    match r.below(8) {
        0 => r.f64(),
        1 => r.range(-40, 40) as f64,
        2 => r.range(-80, 80) as f64 / 2.0,
        3 => r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0 / 3.0]),
        _ => (r.f01() * 2.0 - 1.0) * 10f64.powi(r.below(5) as i32),
    }
}

/// With an integral exponent
pub fn powi_ok(x: f64, n: i32, single: bool, got: Result<f64, ()>) -> Option<bool> {
    let want = pow_model(x, n as f64, single);
    let (mant, emin, max) = f64_info(single);
    match &want {
        Want::Num(v) => {
            let rel = (n.unsigned_abs() as f64 + 4.0) * 2f64.powi(1 - mant);
            if rel > 0.1 {
                return None;
            }
            let min_pos = if single { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
            if n < 0 {
                // the reciprocal of a power which may not be representable
                if v.abs().cmp(&hp::Hp::from_f64(min_pos * 8.0)) == std::cmp::Ordering::Less {
                    return got.ok().map(|g| !g.is_nan() && g.abs() <= min_pos * 16.0);
                }
                if v.abs().cmp(&hp::Hp::from_f64(max / 64.0)) == std::cmp::Ordering::Greater {
                    return got.ok().map(|g| g.abs() > max / 128.0 && (g < 0.0) == v.neg());
                }
            }
            let _ = emin;
            Some(judge(got, &want, single, 2, rel))
        }
        // the sign of zero and of infinity included
        _ => {
            if n < 0 && matches!(want, Want::Exact(v) if v == 0.0 || v.is_infinite()) {
                // may be next to the limits
                let Want::Exact(v) = want else { unreachable!() };
                return Some(got.map_or(false, |g| if v == 0.0 { g.abs() <= f64_info(single).2.recip() * 16.0 } else { g == v || g.abs() > max / 128.0 }));
            }
            Some(judge(got, &want, single, 2, 0.0))
        }
    }
}

fn powers(cx: &mut Ctx) {
    for i in 0..cx.n(500) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        // integral exponents
        let n = match r.below(6) {
            0 => r.i32(),
            1 => r.pick(&[0, 1, -1, 2, -2, 3, i32::MAX, i32::MIN, i32::MIN + 1, 1023, 1024, -1022, -1074, 127, 128, -126, -149]),
            2 => r.range(-400, 400) as i32,
            3 => r.range(-2000, 2000) as i32,
            _ => r.range(-12, 12) as i32,
        };
        let x = gen_base(r);
        let got = unsafe { call("EXPT__LREAL__DINT", &[x.to_bits(), n as u64], || EXPT__LREAL__DINT(x, n)) };
        cx.eval(hashes(&[1, x.to_bits(), n as u64]), true);
        match powi_ok(x, n, false, got) {
            Some(true) => cx.ev("EXPT__LREAL__DINT"),
            Some(false) => cx.violation("EXPT__LREAL__DINT", || format!("EXPT__LREAL__DINT({x:?}, {n}): got {got:?}, expected {}", show_want(&pow_model(x, n as f64, false)))),
            None => cx.ev("not judged: error of the multiplications"),
        }
        if i < 2 {
            cx.sample(|| format!("EXPT__LREAL__DINT({x:?}, {n}) = {got:?}"));
        }
        let x = gen_base(&mut cx.rng) as f32;
        let got = unsafe { call("EXPT__REAL__DINT", &[x.to_bits() as u64, n as u64], || EXPT__REAL__DINT(x, n)) }.map(|v| v as f64);
        cx.eval(hashes(&[2, x.to_bits() as u64, n as u64]), true);
        match powi_ok(x as f64, n, true, got) {
            Some(true) => cx.ev("EXPT__REAL__DINT"),
            Some(false) => cx.violation("EXPT__REAL__DINT", || format!("EXPT__REAL__DINT({x:?}, {n}): got {got:?}, expected {}", show_want(&pow_model(x as f64, n as f64, true)))),
            None => cx.ev("not judged: error of the multiplications"),
        }
        // floating exponents
        let r = &mut cx.rng;
        let (x, y) = (gen_base(r), gen_exp(r));
        let (x32, y32) = (x as f32, y as f32);
        let cases: [(&'static str, f64, f64, bool, Result<f64, ()>); 4] = unsafe {
            let a = [x.to_bits(), y.to_bits()];
            [
                ("EXPT__LREAL__LREAL", x, y, false, call("EXPT__LREAL__LREAL", &a, || EXPT__LREAL__LREAL(x, y))),
                ("EXPT__LREAL__REAL", x, y32 as f64, false, call("EXPT__LREAL__REAL", &a, || EXPT__LREAL__REAL(x, y32))),
                ("EXPT__REAL__REAL", x32 as f64, y32 as f64, true, call("EXPT__REAL__REAL", &a, || EXPT__REAL__REAL(x32, y32)).map(|v| v as f64)),
                ("EXPT__REAL__LREAL", x32 as f64, y32 as f64, true, call("EXPT__REAL__LREAL", &a, || EXPT__REAL__LREAL(x32, y)).map(|v| v as f64)),
            ]
        };
        for (name, x, y, single, got) in cases {
            let want = pow_model(x, y, single);
            cx.eval(hashes(&[hash_str(name), x.to_bits(), y.to_bits()]), true);
            cx.ev(name);
            cx.ev(kind(&want));
            cx.check(judge(got, &want, single, TOL, 0.0), name, || format!("{name}({x:?}, {y:?}): got {got:?}, expected {}", show_want(&want)));
        }
    }
}
/// Small integers: exact
fn exact_powers(cx: &mut Ctx) {
    for b in -12i64..=12 {
        for n in 0..=40i32 {
            let mut v = BigInt::one();
            for _ in 0..n {
                v *= b;
            }
            if v.abs() > BigInt::from(1u64 << 53) {
                continue;
            }
            let want = big::approx(&BigRational::from(v.clone()));
            let x = b as f64;
            let got = unsafe { call("EXPT__LREAL__DINT", &[x.to_bits(), n as u64], || EXPT__LREAL__DINT(x, n)) };
            cx.eval(hashes(&[11, b as u64, n as u64]), true);
            cx.ev("exact power");
            cx.expect(got, Some(want), || format!("EXPT__LREAL__DINT({x}, {n})"));
            if v.abs() <= BigInt::from(1 << 24) {
                let got = unsafe { call("EXPT__REAL__DINT", &[b as u64, n as u64], || EXPT__REAL__DINT(b as f32, n)) };
                cx.eval(hashes(&[12, b as u64, n as u64]), true);
                cx.expect(got, Some(want as f32), || format!("EXPT__REAL__DINT({x}, {n})"));
            }
        }
    }
}
pub fn c29(o: Opts) -> ! {
    let units = vec![unit("powers", 32, powers), unit("exact", 1, exact_powers)];
    run(
        o,
        units,
        &["exact power", "EXPT__LREAL__DINT", "EXPT__REAL__DINT", "EXPT__LREAL__LREAL", "EXPT__LREAL__REAL", "EXPT__REAL__REAL", "EXPT__REAL__LREAL", "no result (NaN)", "infinite result", "exact result", "finite result"],
    )
}
