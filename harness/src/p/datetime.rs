//! C11 - C17: arithmetic on times, dates and their parts, the current time.
use crate::big;
use crate::cal::{self, fit, DAY};
use crate::clock;
use crate::ffi::*;
use crate::mem::Guard;
use crate::*;
use num::{BigInt, BigRational, One, Signed, Zero};
use paste::paste;

type F2 = unsafe extern "C-unwind" fn(i64, i64) -> i64;

pub fn c11(o: Opts) -> ! {
    const FNS: [(&str, F2, i8); 9] = [
        ("ADD_TIME", ADD_TIME, 1),
        ("ADD_TOD_TIME", ADD_TOD_TIME, 1),
        ("ADD_DT_TIME", ADD_DT_TIME, 1),
        ("SUB_TIME", SUB_TIME, -1),
        ("SUB_DATE_DATE", SUB_DATE_DATE, -1),
        ("SUB_TOD_TIME", SUB_TOD_TIME, -1),
        ("SUB_TOD_TOD", SUB_TOD_TOD, -1),
        ("SUB_DT_TIME", SUB_DT_TIME, -1),
        ("SUB_DT_DT", SUB_DT_DT, -1),
    ];
    let units = vec![unit("pairs", 32, |cx| {
        for i in 0..cx.n(60_000) {
            if cx.stop() {
                return;
            }
            let r = &mut cx.rng;
            let a = if r.coin() { cal::gen(r) } else { r.i64() };
            let b = match r.below(5) {
                0 => cal::gen(r),
                1 => (i64::MAX as i128 - a as i128 + r.range(-2, 2) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
                2 => (i64::MIN as i128 - a as i128 + r.range(-2, 2) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
                3 => (a as i128 - (if r.coin() { i64::MAX } else { i64::MIN }) as i128 + r.range(-2, 2) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
                _ => r.i64(),
            };
            for (k, (name, f, s)) in FNS.iter().enumerate() {
                let want = fit(a as i128 + *s as i128 * b as i128);
                let got = unsafe { call(name, &[a as u64, b as u64], || f(a, b)) };
                cx.eval(hashes(&[k as u64, a as u64, b as u64]), true);
                cx.ev(if want.is_none() { "no result within the range" } else { name });
                cx.expect(got, want, || format!("{name}({a}, {b})"));
            }
            if i < 2 {
                cx.sample(|| format!("ADD_*/SUB_* of {a} and {b}"));
            }
        }
    })];
    run(o, units, &["no result within the range", "ADD_TIME", "ADD_TOD_TIME", "ADD_DT_TIME", "SUB_TIME", "SUB_DATE_DATE", "SUB_TOD_TIME", "SUB_TOD_TOD", "SUB_DT_TIME", "SUB_DT_DT"])
}

// ---------------------------------------------------------------------------------------------- C12

macro_rules! muldiv_ints {
    ($cx:ident, $a:ident, $b:ident, $($s:ident $t:ty),*) => { paste! { $(
        {
            let b = $b as $t;
            let names: [(&'static str, unsafe extern "C-unwind" fn(i64, $t) -> i64, bool); 6] = [
                (stringify!([<MUL__TIME__ $s>]), [<MUL__TIME__ $s>], true),
                (stringify!([<MUL_TIME__ $s>]), [<MUL_TIME__ $s>], true),
                (stringify!([<MUL_LTIME__ $s>]), [<MUL_LTIME__ $s>], true),
                (stringify!([<DIV__TIME__ $s>]), [<DIV__TIME__ $s>], false),
                (stringify!([<DIV_TIME__ $s>]), [<DIV_TIME__ $s>], false),
                (stringify!([<DIV_LTIME__ $s>]), [<DIV_LTIME__ $s>], false),
            ];
            for (name, f, mul) in names {
                let want = if mul { fit($a as i128 * b as i128) } else if b == 0 { None } else { fit($a as i128 / b as i128) };
                let got = unsafe { call(name, &[$a as u64, b as u64], || f($a, b)) };
                $cx.eval(hashes(&[hash_str(name), $a as u64, b as u64]), true);
                $cx.ev(if b == 0 && !mul { "division by zero" } else if want.is_none() { "no result within the range" } else { name });
                if !mul && b != 0 && ($a < 0) != ((b as i128) < 0) && $a as i128 % b as i128 != 0 {
                    $cx.ev("inexact negative quotient");
                }
                $cx.expect(got, want, || format!("{name}({}, {b})", $a));
            }
        }
    )* } };
}
pub fn c12(o: Opts) -> ! {
    let units = vec![unit("pairs", 32, |cx| {
        for i in 0..cx.n(8_000) {
            if cx.stop() {
                return;
            }
            let r = &mut cx.rng;
            let mut a = if r.one_in(3) { cal::gen(r) } else { r.i64() };
            let b = match r.below(6) {
                0 => r.range(-130, 260) as i128,
                1 if a != 0 => {
                    // product next to the limits
                    let lim = if r.coin() { i64::MAX as i128 } else { i64::MIN as i128 };
                    lim / a as i128 + r.range(-1, 1) as i128
                }
                2 => {
                    let b = r.int();
                    if b != 0 {
                        let lim = if r.coin() { i64::MAX as i128 } else { i64::MIN as i128 };
                        a = (lim / b + r.range(-1, 1) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
                    }
                    b
                }
                _ => r.int(),
            };
            if i < 2 {
                cx.sample(|| format!("MUL*/DIV* of {a} and {b} (converted to each integer type)"));
            }
            muldiv_ints!(cx, a, b, SINT i8, INT i16, DINT i32, LINT i64, USINT u8, UINT u16, UDINT u32, ULINT u64);
        }
    })];
    run(
        o,
        units,
        &["division by zero", "no result within the range", "inexact negative quotient", "MUL__TIME__ULINT", "MUL_TIME__LINT", "MUL_LTIME__SINT", "DIV__TIME__UINT", "DIV_TIME__ULINT", "DIV_LTIME__DINT"],
    )
}

// ---------------------------------------------------------------------------------------------- C13

/// Judges a product or quotient: rejected outside of the range, otherwise close to the exact value.
pub fn real_ok(a: i64, b: f64, mul: bool, rel_bits: i32, got: &Result<i64, ()>) -> Result<&'static str, String> {
    let bad = b.is_nan() || (mul && b.is_infinite()) || (!mul && b == 0.0);
    if bad {
        return if got.is_err() { Ok("not a number, infinite or division by zero") } else { Err("should be rejected".into()) };
    }
    if b.is_infinite() {
        return if *got == Ok(0) { Ok("division by infinity") } else { Err("should be 0".into()) };
    }
    let ax = BigRational::from(BigInt::from(a));
    let bx = big::exact(b);
    let x = if mul { ax * bx } else { ax / bx };
    let tol = BigRational::one() + x.abs() * big::pow2(rel_bits);
    let lim = BigRational::from(BigInt::one() << 63);
    match got {
        Err(()) => {
            if x.abs() + &tol < lim {
                Err(format!("rejected, the exact value is {:e}", big::approx(&x)))
            } else {
                Ok("no result within the range")
            }
        }
        Ok(v) => {
            let d = (BigRational::from(BigInt::from(*v)) - &x).abs();
            if d > tol {
                Err(format!("the exact value is {:e}", big::approx(&x)))
            } else if x.is_zero() {
                Ok("zero")
            } else if x.is_negative() {
                Ok("negative result")
            } else {
                Ok("positive result")
            }
        }
    }
}
/// A duration and a factor
pub fn real_pair(r: &mut Rng) -> (i64, f64) {
    let a = match r.below(4) {
        0 => cal::gen(r),
        1 => r.range(-1_000_000, 1_000_000) * 1_000_000,
        _ => r.i64(),
    };
    let mut b = match r.below(4) {
        0 => r.range(-4000, 4000) as f64 / 8.0,
        1 => r.f64(),
        2 => (r.f01() * 2.0 - 1.0) * 10f64.powi(r.range(-12, 12) as i32),
        _ => r.range(-100, 100) as f64 / 10.0,
    };
    if r.one_in(8) && a != 0 {
        // result next to the limits
        b = 9.223372036854775807e18 / a as f64 * (1.0 + (r.f01() - 0.5) * r.pick(&[1e-3, 1e-7, 1e-13]));
    }
    (a, b)
}
pub fn c13(o: Opts) -> ! {
    let units = vec![unit("pairs", 32, |cx| {
        let m64: [(&'static str, unsafe extern "C-unwind" fn(i64, f64) -> i64, bool); 6] = [
            ("MUL__TIME__LREAL", MUL__TIME__LREAL, true),
            ("MUL_TIME__LREAL", MUL_TIME__LREAL, true),
            ("MUL_LTIME__LREAL", MUL_LTIME__LREAL, true),
            ("DIV__TIME__LREAL", DIV__TIME__LREAL, false),
            ("DIV_TIME__LREAL", DIV_TIME__LREAL, false),
            ("DIV_LTIME__LREAL", DIV_LTIME__LREAL, false),
        ];
        let m32: [(&'static str, unsafe extern "C-unwind" fn(i64, f32) -> i64, bool); 6] = [
            ("MUL__TIME__REAL", MUL__TIME__REAL, true),
            ("MUL_TIME__REAL", MUL_TIME__REAL, true),
            ("MUL_LTIME__REAL", MUL_LTIME__REAL, true),
            ("DIV__TIME__REAL", DIV__TIME__REAL, false),
            ("DIV_TIME__REAL", DIV_TIME__REAL, false),
            ("DIV_LTIME__REAL", DIV_LTIME__REAL, false),
        ];
        for i in 0..cx.n(4_000) {
            if cx.stop() {
                return;
            }
            let r = &mut cx.rng;
            let (a, b) = real_pair(r);
            let c = if r.one_in(6) { r.f32() } else { b as f32 };
            if i < 2 {
                cx.sample(|| format!("MUL*/DIV* of {a} and {b} (LREAL), {c} (REAL)"));
            }
            for (name, f, mul) in m64 {
                let b = if mul || b == 0.0 || cx.rng.one_in(3) { b } else { 1.0 / b };
                let got = unsafe { call(name, &[a as u64, b.to_bits()], || f(a, b)) };
                cx.eval(hashes(&[hash_str(name), a as u64, b.to_bits()]), a != 0);
                match real_ok(a, b, mul, -50, &got) {
                    Ok(e) => cx.ev(e),
                    Err(e) => cx.violation("real", || format!("{name}({a}, {b:?}): got {}, {e}", show(&got.ok()))),
                }
            }
            for (name, f, mul) in m32 {
                let b = if mul || c == 0.0 || cx.rng.one_in(3) { c } else { 1.0 / c };
                let got = unsafe { call(name, &[a as u64, b.to_bits() as u64], || f(a, b)) };
                cx.eval(hashes(&[hash_str(name), a as u64, b.to_bits() as u64]), a != 0);
                match real_ok(a, b as f64, mul, -22, &got) {
                    Ok(e) => cx.ev(e),
                    Err(e) => cx.violation("real", || format!("{name}({a}, {b:?}): got {}, {e}", show(&got.ok()))),
                }
            }
        }
    })];
    run(o, units, &["not a number, infinite or division by zero", "division by infinity", "no result within the range", "zero", "negative result", "positive result"])
}

// ---------------------------------------------------------------------------------------------- C14

pub fn date_model(y: i128, m: i128, d: i128) -> Option<i64> {
    if !cal::valid(y, m, d) {
        return None;
    }
    fit(cal::days(y as i64, m as i64, d as i64) as i128 * DAY)
}
pub fn tod_model(h: i128, m: i128, s: i128, ms: i128) -> Option<i64> {
    if !((0..24).contains(&h) && (0..60).contains(&m) && (0..60).contains(&s) && (0..1000).contains(&ms)) {
        return None;
    }
    fit((((h * 60 + m) * 60 + s) * 1000 + ms) * 1_000_000)
}
pub fn date_parts(r: &mut Rng) -> (i128, i128, i128) {
    let y = match r.below(5) {
        0 => r.int(),
        1 => r.pick(&[1677, 1678, 2262, 2263, 1676, 1900, 2000, 1700, 2100, 0, -1, 1970, 1]),
        _ => r.range(1677, 2263) as i128,
    };
    let m = match r.below(8) {
        0 => r.int(),
        1 => r.pick(&[0, 13, -1]),
        2 | 3 => 2,
        _ => r.range(1, 12) as i128,
    };
    let d = match r.below(8) {
        0 => r.int(),
        1 | 2 => r.range(27, 32) as i128,
        3 => r.pick(&[0, 1, -1]),
        _ => r.range(1, 31) as i128,
    };
    (y, m, d)
}
pub fn tod_parts(r: &mut Rng) -> [i128; 4] {
    let lim = [24i128, 60, 60, 1000];
    let mut v = [0i128; 4];
    for i in 0..4 {
        v[i] = match r.below(12) {
            0 if r.coin() => r.int(),
            0 => lim[i] + r.below(3) as i128 - 1,
            1 | 2 => lim[i] - 1,
            3 => 0,
            _ => r.below(lim[i] as usize) as i128,
        };
    }
    if r.one_in(5) {
        // leap second territory
        v[2] = 59;
        v[3] = r.range(990, 2010) as i128;
        if r.coin() {
            v[2] = 60;
            v[3] = 0;
        }
    }
    // values which are in range after truncation to 8, 16 or 32 bits
    if r.one_in(6) {
        let i = r.below(4);
        let k = r.pick(&[1i128 << 8, 1 << 16, 1 << 32, 1 << 31, 1 << 33, 1 << 63]);
        v[i] += if r.coin() { k } else { -k };
    }
    v
}
macro_rules! concat_dates {
    ($cx:ident, $p:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let (y, m, d) = ($p.0 as $t, $p.1 as $t, $p.2 as $t);
        let name = stringify!([<CONCAT_DATE__ $s>]);
        let want = date_model(y as i128, m as i128, d as i128);
        let got = unsafe { call(name, &[y as u64, m as u64, d as u64], || [<CONCAT_DATE__ $s>](y, m, d)) };
        $cx.eval(hashes(&[hash_str(name), y as u64, m as u64, d as u64]), true);
        $cx.ev(if want.is_some() { name } else if cal::valid(y as i128, m as i128, d as i128) { "date beyond the range" } else { "no such date" });
        $cx.expect(got, want, || format!("{name}({y}, {m}, {d})"));
    } )* } };
}
macro_rules! concat_tods {
    ($cx:ident, $p:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let v = $p.map(|x| x as $t);
        let name = stringify!([<CONCAT_TOD__ $s>]);
        let want = tod_model(v[0] as i128, v[1] as i128, v[2] as i128, v[3] as i128);
        let got = unsafe { call(name, &v.map(|x| x as u64), || [<CONCAT_TOD__ $s>](v[0], v[1], v[2], v[3])) };
        $cx.eval(hashes(&[hash_str(name), v[0] as u64, v[1] as u64, v[2] as u64, v[3] as u64]), true);
        $cx.ev(if want.is_some() { name } else { "no such time of day" });
        $cx.expect(got, want, || format!("{name}{v:?}"));
    } )* } };
}
pub fn c14(o: Opts) -> ! {
    let units = vec![
        unit("parts", 32, |cx| {
            for i in 0..cx.n(20_000) {
                if cx.stop() {
                    return;
                }
                let mut p = date_parts(&mut cx.rng);
                if cx.rng.one_in(8) {
                    let k = cx.rng.pick(&[1i128 << 8, 1 << 16, 1 << 32, 1 << 31, 1 << 33]);
                    let k = if cx.rng.coin() { k } else { -k };
                    match cx.rng.below(3) {
                        0 => p.0 += k,
                        1 => p.1 += k,
                        _ => p.2 += k,
                    }
                }
                concat_dates!(cx, p, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);
                let v = tod_parts(&mut cx.rng);
                concat_tods!(cx, v, SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);
                let (a, b) = (cal::gen(&mut cx.rng), cal::gen(&mut cx.rng));
                let b = if cx.rng.coin() { (b as i128).rem_euclid(DAY) as i64 } else { b };
                let want = fit((a as i128).div_euclid(DAY) * DAY + (b as i128).rem_euclid(DAY));
                let got = unsafe { call("CONCAT_DATE_TOD", &[a as u64, b as u64], || CONCAT_DATE_TOD(a, b)) };
                cx.eval(hashes(&[77, a as u64, b as u64]), true);
                cx.ev(if want.is_some() { "CONCAT_DATE_TOD" } else { "CONCAT_DATE_TOD beyond the range" });
                cx.expect(got, want, || format!("CONCAT_DATE_TOD({a}, {b})"));
                if i < 2 {
                    cx.sample(|| format!("CONCAT_DATE{p:?}, CONCAT_TOD{v:?}, CONCAT_DATE_TOD({a}, {b}) = {want:?}"));
                }
            }
        }),
        unit("calendar", 8, |cx| {
            // all days of all years, valid and not
            let (lo, hi) = (1676 + cx.chunk as i64 * 74, 1676 + (cx.chunk as i64 + 1) * 74);
            for y in lo..hi {
                for m in 0..=13i64 {
                    for d in 0..=32i64 {
                        let want = date_model(y as i128, m as i128, d as i128);
                        let (y2, m2, d2) = (y as i32, m as i32, d as i32);
                        let got = unsafe { call("CONCAT_DATE__DINT", &[y as u64, m as u64, d as u64], || CONCAT_DATE__DINT(y2, m2, d2)) };
                        cx.eval(hashes(&[78, y as u64, m as u64, d as u64]), true);
                        cx.ev("calendar day enumerated");
                        cx.expect(got, want, || format!("CONCAT_DATE__DINT({y}, {m}, {d})"));
                    }
                }
                if cx.stop() {
                    return;
                }
            }
        }),
    ];
    run(
        o,
        units,
        &[
            "no such date", "date beyond the range", "no such time of day", "CONCAT_DATE_TOD", "CONCAT_DATE_TOD beyond the range", "calendar day enumerated", "CONCAT_DATE__INT", "CONCAT_DATE__UINT", "CONCAT_DATE__DINT",
            "CONCAT_DATE__UDINT", "CONCAT_DATE__LINT", "CONCAT_DATE__ULINT", "CONCAT_TOD__USINT", "CONCAT_TOD__INT", "CONCAT_TOD__UINT", "CONCAT_TOD__DINT", "CONCAT_TOD__UDINT", "CONCAT_TOD__LINT", "CONCAT_TOD__ULINT",
        ],
    )
}

// ---------------------------------------------------------------------------------------------- C15

macro_rules! splits {
    ($cx:ident, $g:ident, $t:ident, $p:ident, $($s:ident $ty:ty),*) => { paste! { $( {
        const W: usize = std::mem::size_of::<$ty>();
        // every output in its own guarded memory, holding stale data
        let fill = $cx.rng.next();
        let mut ptr = [std::ptr::null_mut::<$ty>(); 7];
        for i in 0..7 {
            ptr[i] = $g[i].dest(W, |k| (fill >> ((i + k) % 8 * 8)) as u8, fill as u8 | 1) as *mut $ty;
        }
        let full = [$p.y, $p.mo, $p.d, $p.h, $p.mi, $p.s, $p.ns / 1_000_000];
        for k in 0..3usize {
            let (name, want): (&'static str, &[i64]) = match k {
                0 => (stringify!([<SPLIT_DATE__ $s>]), &full[..3]),
                1 => (stringify!([<SPLIT_TOD__ $s>]), &full[3..]),
                _ => (stringify!([<SPLIT_DT__ $s>]), &full[..]),
            };
            for i in 0..7 {
                unsafe { *ptr[i] = fill as $ty };
            }
            let res = unsafe { call(name, &[$t as u64], || match k {
                0 => [<SPLIT_DATE__ $s>]($t, ptr[0], ptr[1], ptr[2]),
                1 => [<SPLIT_TOD__ $s>]($t, ptr[0], ptr[1], ptr[2], ptr[3]),
                _ => [<SPLIT_DT__ $s>]($t, ptr[0], ptr[1], ptr[2], ptr[3], ptr[4], ptr[5], ptr[6]),
            }) };
            $cx.eval(hashes(&[hash_str(name), $t as u64]), true);
            $cx.ev(name);
            let got: Vec<i128> = (0..want.len()).map(|i| unsafe { *ptr[i] } as i128).collect();
            $cx.check(res == Ok(0) && got.iter().zip(want).all(|(a, b)| *a == *b as i128), "split", || format!("{name}({}): got {}{got:?}, expected {want:?}", $t, match res { Err(_) => "a rejection, ".to_string(), Ok(0) => String::new(), Ok(k) => format!("result {k}, ") }));
            let clean = (want.len()..7).all(|i| unsafe { *ptr[i] } == fill as $ty) && (0..7).all(|i| $g[i].canary_ok());
            $cx.check(clean, "split", || format!("{name}({}) wrote elsewhere", $t));
        }
    } )* } };
}
pub fn c15(o: Opts) -> ! {
    let units = vec![
        unit("values", 32, |cx| {
            let mut g: Vec<Guard> = (0..7).map(|_| Guard::new(64)).collect();
            for i in 0..cx.n(12_000) {
                if cx.stop() {
                    return;
                }
                let t = cal::gen(&mut cx.rng);
                let p = cal::split(t);
                splits!(cx, g, t, p, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);
                day_of_week(cx, t, &p);
                if t < 0 {
                    cx.ev("before 1970");
                }
                if i < 2 {
                    cx.sample(|| format!("SPLIT_*/DAY_OF_WEEK of {t}: {p:?}"));
                }
            }
        }),
        unit("days", 8, |cx| {
            // every day of the range
            let (lo, hi) = (-106_752 + cx.chunk as i64 * 26_688, -106_752 + (cx.chunk as i64 + 1) * 26_688);
            let mut o = [0i32; 3];
            for d in lo..hi {
                for off in [0, DAY - 1] {
                    let Some(t) = fit(d as i128 * DAY + off) else { continue };
                    let p = cal::split(t);
                    day_of_week(cx, t, &p);
                    let q = o.as_mut_ptr();
                    let res = unsafe { call("SPLIT_DATE__DINT", &[t as u64], || SPLIT_DATE__DINT(t, q, q.add(1), q.add(2))) };
                    cx.ev("day enumerated");
                    cx.check(res.is_ok() && o == [p.y as i32, p.mo as i32, p.d as i32], "split", || format!("SPLIT_DATE__DINT({t}): got {o:?}, expected {p:?}"));
                }
            }
        }),
    ];
    run(
        o,
        units,
        &["before 1970", "DAY_OF_WEEK", "day enumerated", "SPLIT_DATE__INT", "SPLIT_DATE__ULINT", "SPLIT_TOD__UINT", "SPLIT_TOD__LINT", "SPLIT_DT__INT", "SPLIT_DT__DINT", "SPLIT_DT__UDINT"],
    )
}
fn day_of_week(cx: &mut Ctx, t: i64, p: &cal::Parts) {
    let got = unsafe { call("DAY_OF_WEEK", &[t as u64], || DAY_OF_WEEK(t)) };
    cx.eval(hashes(&[88, t as u64]), true);
    cx.ev("DAY_OF_WEEK");
    cx.expect(got, Some(p.dow as i8), || format!("DAY_OF_WEEK({t})"));
}

// ---------------------------------------------------------------------------------------------- C16

pub fn c16(o: Opts) -> ! {
    let units = vec![unit("values", 32, |cx| {
        for i in 0..cx.n(60_000) {
            if cx.stop() {
                return;
            }
            let t = cal::gen(&mut cx.rng);
            let date = fit((t as i128).div_euclid(DAY) * DAY);
            let tod = (t as i128).rem_euclid(DAY) as i64;
            let d = unsafe { call("DATE_AND_TIME_TO_DATE", &[t as u64], || DATE_AND_TIME_TO_DATE(t)) };
            cx.expect(d, date, || format!("DATE_AND_TIME_TO_DATE({t})"));
            let c = unsafe { call("DATE_AND_TIME_TO_TIME_OF_DAY", &[t as u64], || DATE_AND_TIME_TO_TIME_OF_DAY(t)) };
            cx.expect(c, Some(tod), || format!("DATE_AND_TIME_TO_TIME_OF_DAY({t})"));
            cx.eval(hashes(&[1, t as u64]), true);
            cx.ev(match (date, t < 0) {
                (None, _) => "day whose start is not representable",
                (_, true) => "before 1970",
                _ => "since 1970",
            });
            if let (Ok(d), Ok(c)) = (d, c) {
                let back = unsafe { call("CONCAT_DATE_TOD", &[d as u64, c as u64], || CONCAT_DATE_TOD(d, c)) };
                cx.ev("taken apart and put together");
                cx.expect(back, Some(t), || format!("CONCAT_DATE_TOD of the parts of {t}"));
            }
            if i < 2 {
                cx.sample(|| format!("{t}: DATE {date:?}, TIME_OF_DAY {tod}"));
            }
        }
    })];
    run(o, units, &["day whose start is not representable", "before 1970", "since 1970", "taken apart and put together"])
}

// ---------------------------------------------------------------------------------------------- C17

#[repr(C)]
struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    mday: i32,
    mon: i32,
    year: i32,
    wday: i32,
    yday: i32,
    isdst: i32,
    gmtoff: i64,
    zone: *const u8,
}
extern "C" {
    fn localtime_r(t: *const i64, tm: *mut Tm) -> *mut Tm;
    fn tzset();
}
fn local_tod(ns: i128) -> i64 {
    let s = ns.div_euclid(cal::NS) as i64;
    unsafe {
        let mut tm: Tm = std::mem::zeroed();
        localtime_r(&s, &mut tm);
        ((tm.hour as i64 * 60 + tm.min as i64) * 60 + tm.sec as i64) * 1_000_000_000 + ns.rem_euclid(cal::NS) as i64
    }
}
pub fn c17(o: Opts) -> ! {
    unsafe { tzset() };
    let units = vec![
        unit("virtual clock", 16, |cx| {
            let lo = cal::days(1971, 1, 1) as i128 * DAY;
            let hi = cal::days(2037, 12, 1) as i128 * DAY;
            // find the changes of the offset from UTC
            let mut changes = vec![];
            let mut prev = None;
            let mut t = lo;
            while t < hi {
                let off = (local_tod(t) as i128 - t).rem_euclid(DAY);
                if prev.is_some() && prev != Some(off) {
                    changes.push(t);
                }
                prev = Some(off);
                t += DAY / 24;
            }
            for i in 0..cx.n(20_000) {
                if cx.stop() {
                    break;
                }
                let r = &mut cx.rng;
                let t = match r.below(4) {
                    0 if !changes.is_empty() => changes[r.below(changes.len())] + r.range(-7_200_000_000_000, 7_200_000_000_000) as i128,
                    1 => {
                        // around local midnight
                        let t = lo + (r.next() as i128) % (hi - lo);
                        t - local_tod(t) as i128 + r.pick(&[-1, 0, 1, -1_000_000_000, 999_999_999, 86_399_999_999_999])
                    }
                    2 => (lo + (r.next() as i128) % (hi - lo)) / cal::NS * cal::NS + r.pick(&[0, 999_999_999, 1, 999_000_000, 500_000_000]),
                    _ => lo + (r.next() as i128) % (hi - lo),
                };
                let want = local_tod(t);
                clock::on(1_000_000_000_000, t);
                let got = unsafe { call("TIME", &[], || TIME()) };
                clock::off();
                cx.eval(hashes(&[t as u64]), true);
                cx.ev(if (local_tod(t) as i128 - t).rem_euclid(DAY) == 0 { "offset 0 from UTC" } else { "local time differs from UTC" });
                if (t + 1).rem_euclid(cal::NS) == 0 {
                    cx.ev("last nanosecond of a second");
                }
                if i < 2 {
                    cx.sample(|| format!("TIME() at {t} ns since 1970 (TZ={:?}) = {want}", std::env::var("TZ")));
                }
                cx.expect(got, Some(want), || format!("TIME() at {t} ns since 1970 (TZ={:?})", std::env::var("TZ")));
            }
        }),
        unit("real clock", 1, |cx| {
            for _ in 0..cx.n(500) {
                let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i128;
                let (s0, a) = (std::time::Instant::now(), now());
                let got = unsafe { call("TIME", &[], || TIME()) };
                let b = now();
                let (lo, hi) = (local_tod(a), local_tod(b));
                // skip midnight and adjustments of the clock
                if lo > hi || b - a > s0.elapsed().as_nanos() as i128 + 1_000_000 {
                    continue;
                }
                cx.eval(hashes(&[a as u64, 1]), true);
                cx.ev("real clock");
                cx.check(matches!(got, Ok(v) if v >= lo && v <= hi), "now", || format!("TIME() = {got:?}, the clock was between {lo} and {hi}"));
            }
        }),
    ];
    run(o, units, &["last nanosecond of a second", "real clock"])
}
