//! C24 - C27: bit strings, byte order, bit casts, BCD, selection.
use crate::ffi::*;
use crate::mem::Guard;
use crate::*;
use paste::paste;

// ---------------------------------------------------------------------------------------------- C24

/// Bit by bit: bit `i` of the result is bit `src(i)` of the operand, or zero.
fn bitwise(v: u64, w: u32, src: impl Fn(i64) -> Option<i64>) -> u64 {
    let mut o = 0;
    for i in 0..w as i64 {
        if let Some(s) = src(i) {
            if v >> s & 1 == 1 {
                o |= 1 << i;
            }
        }
    }
    o
}
fn shift_model(op: u8, v: u64, w: u32, n: u32) -> u64 {
    let (n, wi) = (n as i64, w as i64);
    bitwise(v, w, |i| match op {
        0 => (i - n >= 0).then_some(i - n),
        1 => (i + n < wi).then_some(i + n),
        2 => Some((i - n).rem_euclid(wi)),
        _ => Some((i + n).rem_euclid(wi)),
    })
}
macro_rules! shifts {
    ($cx:ident, $v:ident, $n:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let v = $v as $t;
        let fns: [(&'static str, unsafe extern "C-unwind" fn($t, u32) -> $t); 4] = [
            (stringify!([<SHL__ $s>]), [<SHL__ $s>]),
            (stringify!([<SHR__ $s>]), [<SHR__ $s>]),
            (stringify!([<ROL__ $s>]), [<ROL__ $s>]),
            (stringify!([<ROR__ $s>]), [<ROR__ $s>]),
        ];
        for (op, (name, f)) in fns.into_iter().enumerate() {
            let want = shift_model(op as u8, v as u64, <$t>::BITS, $n) as $t;
            let got = unsafe { call(name, &[v as u64, $n as u64], || f(v, $n)) };
            $cx.eval(hashes(&[hash_str(name), v as u64, $n as u64]), $n != 0);
            $cx.ev(if $n == 0 { "by zero" } else if $n < <$t>::BITS { name } else if $n == <$t>::BITS { "by the width" } else { "by more than the width" });
            $cx.expect(got, Some(want), || format!("{name}({v:#x}, {})", $n));
        }
    } )* } };
}
pub fn c24(o: Opts) -> ! {
    let units = vec![
        unit("random", 32, |cx| {
            for i in 0..cx.n(12_000) {
                if cx.stop() {
                    return;
                }
                let r = &mut cx.rng;
                let v = if r.one_in(3) { r.u64() } else { r.next() };
                let n = match r.below(6) {
                    0 => r.u32(),
                    1 => r.pick(&[7u32, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 65536, u32::MAX, 1 << 31]),
                    2 => r.pick(&[8u32, 16, 32, 64]) * r.range(0, 70_000) as u32,
                    _ => r.below(70) as u32,
                };
                if i < 2 {
                    cx.sample(|| format!("SHL, SHR, ROL, ROR of {v:#x} (low 8, 16, 32, 64 bits) by {n}"));
                }
                shifts!(cx, v, n, BYTE u8, WORD u16, DWORD u32, LWORD u64);
            }
        }),
        unit("all bytes", 8, |cx| {
let ch = cx.chunk as u64;
            for v in (0..256u64).filter(move |v| v % 8 == ch) {
                for n in 0..80u32 {
                    shifts!(cx, v, n, BYTE u8);
                }
            }
        }),
        unit("single bits", 8, |cx| {
let ch = cx.chunk as u64;
            for b in (0..64u64).filter(move |v| v % 8 == ch) {
                for n in 0..=130u32 {
                    let v = 1u64 << b;
                    shifts!(cx, v, n, WORD u16, DWORD u32, LWORD u64);
                    let v = !v;
                    shifts!(cx, v, n, WORD u16, DWORD u32, LWORD u64);
                }
            }
        }),
    ];
    run(
        o,
        units,
        &[
            "by zero", "by the width", "by more than the width", "SHL__BYTE", "SHR__BYTE", "ROL__BYTE", "ROR__BYTE", "SHL__WORD", "SHR__WORD", "ROL__WORD", "ROR__WORD", "SHL__DWORD",
            "SHR__DWORD", "ROL__DWORD", "ROR__DWORD", "SHL__LWORD", "SHR__LWORD", "ROL__LWORD", "ROR__LWORD",
        ],
    )
}

// ---------------------------------------------------------------------------------------------- C25

macro_rules! endian_ints {
    ($cx:ident, $v:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let v = $v as $t;
        // byte i of the result is byte n-1-i of the operand
        let mut b = v.to_ne_bytes();
        b.reverse();
        let swapped = <$t>::from_ne_bytes(b);
        let (be, le) = if cfg!(target_endian = "little") { (swapped, v) } else { (v, swapped) };
        let fns: [(&'static str, unsafe extern "C-unwind" fn($t) -> $t, $t); 4] = [
            (stringify!([<TO_BIG_ENDIAN__ $s>]), [<TO_BIG_ENDIAN__ $s>], be),
            (stringify!([<TO_LITTLE_ENDIAN__ $s>]), [<TO_LITTLE_ENDIAN__ $s>], le),
            (stringify!([<FROM_BIG_ENDIAN__ $s>]), [<FROM_BIG_ENDIAN__ $s>], le),
            (stringify!([<FROM_LITTLE_ENDIAN__ $s>]), [<FROM_LITTLE_ENDIAN__ $s>], be),
        ];
        for (name, f, want) in fns {
            let got = unsafe { call(name, &[v as u64], || f(v)) };
            $cx.eval(hashes(&[hash_str(name), v as u64]), swapped != v);
            $cx.ev(name);
            $cx.expect(got, Some(want), || format!("{name}({v:#x})"));
            // the same conversion twice gives the value back
            if let Ok(x) = got {
                let back = unsafe { call(name, &[x as u64], || f(x)) };
                $cx.expect(back, Some(v), || format!("{name}({name}({v:#x}))"));
            }
        }
    } )* } };
}
/// The bits of a float, signalling NaNs included: moves through registers and memory do not change them on x86_64.
fn same64(a: u64, b: u64) -> bool {
    a == b
}
fn same32(a: u32, b: u32) -> bool {
    a == b
}
fn snan64(r: &mut gen::Rng) -> f64 {
    f64::from_bits(0x7ff << 52 | (r.next() & 1) << 63 | (r.next() >> 13).max(1))
}
fn snan32(r: &mut gen::Rng) -> f32 {
    f32::from_bits(0xff << 23 | (r.next() as u32 & 1) << 31 | (r.next() as u32 >> 10).max(1))
}
pub fn c25(o: Opts) -> ! {
    let units = vec![
        unit("random", 16, |cx| {
            for i in 0..cx.n(20_000) {
                if cx.stop() {
                    return;
                }
                let r = &mut cx.rng;
                let v = match r.below(4) {
                    0 => r.u64(),
                    1 => (r.u8() as u64) << (8 * r.below(8)),
                    _ => r.next(),
                };
                if i < 2 {
                    cx.sample(|| format!("the conversions of the low 16, 32, 64 bits of {v:#x}, of all types"));
                }
                endian_ints!(cx, v, INT i16, DINT i32, LINT i64, UINT u16, UDINT u32, ULINT u64, WORD u16, DWORD u32, LWORD u64, WCHAR u16, DATE i64, TIME_OF_DAY i64, DATE_AND_TIME i64);
                let f = if cx.rng.one_in(10) { snan64(&mut cx.rng) } else { cx.rng.f64() };
                let fns: [(&'static str, unsafe extern "C-unwind" fn(f64) -> f64); 4] = [
                    ("TO_BIG_ENDIAN__LREAL", TO_BIG_ENDIAN__LREAL),
                    ("TO_LITTLE_ENDIAN__LREAL", TO_LITTLE_ENDIAN__LREAL),
                    ("FROM_BIG_ENDIAN__LREAL", FROM_BIG_ENDIAN__LREAL),
                    ("FROM_LITTLE_ENDIAN__LREAL", FROM_LITTLE_ENDIAN__LREAL),
                ];
                for (name, g) in fns {
                    let got = unsafe { call(name, &[f.to_bits()], || g(f)) };
                    cx.eval(hashes(&[hash_str(name), f.to_bits()]), true);
                    cx.ev(name);
                    cx.check(got.map_or(false, |x| same64(x.to_bits(), f.to_bits())), name, || format!("{name}({f:?} = {:#x}) = {:#x?}", f.to_bits(), got.map(|x| x.to_bits())));
                }
                let f = if cx.rng.one_in(10) { snan32(&mut cx.rng) } else { cx.rng.f32() };
                let fns: [(&'static str, unsafe extern "C-unwind" fn(f32) -> f32); 4] = [
                    ("TO_BIG_ENDIAN__REAL", TO_BIG_ENDIAN__REAL),
                    ("TO_LITTLE_ENDIAN__REAL", TO_LITTLE_ENDIAN__REAL),
                    ("FROM_BIG_ENDIAN__REAL", FROM_BIG_ENDIAN__REAL),
                    ("FROM_LITTLE_ENDIAN__REAL", FROM_LITTLE_ENDIAN__REAL),
                ];
                for (name, g) in fns {
                    let got = unsafe { call(name, &[f.to_bits() as u64], || g(f)) };
                    cx.eval(hashes(&[hash_str(name), f.to_bits() as u64]), true);
                    cx.ev(name);
                    cx.check(got.map_or(false, |x| same32(x.to_bits(), f.to_bits())), name, || format!("{name}({f:?} = {:#x}) = {:#x?}", f.to_bits(), got.map(|x| x.to_bits())));
                }
            }
        }),
        unit("all 16 bit values", 8, |cx| {
let ch = cx.chunk as u64;
            for v in (0..65536u64).filter(move |v| v % 8 == ch) {
                endian_ints!(cx, v, INT i16, UINT u16, WORD u16, WCHAR u16);
            }
        }),
    ];
    run(
        o,
        units,
        &[
            "TO_BIG_ENDIAN__INT", "FROM_BIG_ENDIAN__DINT", "TO_LITTLE_ENDIAN__LINT", "FROM_LITTLE_ENDIAN__ULINT", "TO_BIG_ENDIAN__DATE", "FROM_LITTLE_ENDIAN__TIME_OF_DAY", "TO_BIG_ENDIAN__DATE_AND_TIME",
            "TO_BIG_ENDIAN__WCHAR", "FROM_BIG_ENDIAN__LWORD", "TO_BIG_ENDIAN__REAL", "FROM_BIG_ENDIAN__LREAL",
        ],
    )
}

// ---------------------------------------------------------------------------------------------- C26

fn bcd(v: u64, digits: u32) -> bool {
    // decimal digits only: the hexadecimal notation has no letter
    let s = format!("{v:0w$x}", w = digits as usize);
    s.bytes().all(|c| c.is_ascii_digit())
}
macro_rules! bcds {
    ($cx:ident, $v:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let v = $v as $t;
        let name = stringify!([<IS_VALID_BCD__ $s>]);
        let want = bcd(v as u64, <$t>::BITS / 4);
        let got = unsafe { call(name, &[v as u64], || [<IS_VALID_BCD__ $s>](v)) };
        $cx.eval(hashes(&[hash_str(name), v as u64]), true);
        $cx.ev(if want { "BCD" } else { "not BCD" });
        $cx.ev(name);
        $cx.expect(got, Some(want), || format!("{name}({v:#x})"));
    } )* } };
}
fn casts(cx: &mut Ctx, v: u64) {
    let w = v as u32;
    let d = f64::from_bits(v);
    let f = f32::from_bits(w);
    unsafe {
        let got = call("LWORD_TO_LREAL", &[v], || LWORD_TO_LREAL(v)).map(|x| x.to_bits());
        cx.eval(hashes(&[1, v]), true);
        cx.ev("LWORD_TO_LREAL");
        cx.check(got.map_or(false, |x| same64(x, v)), "LWORD_TO_LREAL", || format!("LWORD_TO_LREAL({v:#x}) has the bits {got:#x?}"));
        let got = call("LREAL_TO_LWORD", &[v], || LREAL_TO_LWORD(d));
        cx.eval(hashes(&[2, v]), true);
        cx.ev("LREAL_TO_LWORD");
        cx.check(got.map_or(false, |x| same64(x, v)), "LREAL_TO_LWORD", || format!("LREAL_TO_LWORD({v:#x}) = {got:#x?}"));
        let got = call("DWORD_TO_REAL", &[w as u64], || DWORD_TO_REAL(w)).map(|x| x.to_bits());
        cx.eval(hashes(&[3, w as u64]), true);
        cx.ev("DWORD_TO_REAL");
        cx.check(got.map_or(false, |x| same32(x, w)), "DWORD_TO_REAL", || format!("DWORD_TO_REAL({w:#x}) has the bits {got:#x?}"));
        let got = call("REAL_TO_DWORD", &[w as u64], || REAL_TO_DWORD(f));
        cx.eval(hashes(&[4, w as u64]), true);
        cx.ev("REAL_TO_DWORD");
        cx.check(got.map_or(false, |x| same32(x, w)), "REAL_TO_DWORD", || format!("REAL_TO_DWORD({w:#x}) = {got:#x?}"));
        // all exponent bits set: neither number nor valid
        let want = v >> 52 & 0x7ff != 0x7ff;
        let got = call("IS_VALID__LREAL", &[v], || IS_VALID__LREAL(d));
        cx.eval(hashes(&[5, v]), true);
        cx.ev(if want { "valid LREAL" } else { "invalid LREAL" });
        cx.expect(got, Some(want), || format!("IS_VALID__LREAL({d:?} = {v:#x})"));
        let want = w >> 23 & 0xff != 0xff;
        let got = call("IS_VALID__REAL", &[w as u64], || IS_VALID__REAL(f));
        cx.eval(hashes(&[6, w as u64]), true);
        cx.ev(if want { "valid REAL" } else { "invalid REAL" });
        cx.expect(got, Some(want), || format!("IS_VALID__REAL({f:?} = {w:#x})"));
    }
}
pub fn c26(o: Opts) -> ! {
    let units = vec![
        unit("random", 16, |cx| {
            for i in 0..cx.n(40_000) {
                if cx.stop() {
                    return;
                }
                let r = &mut cx.rng;
                let v = match r.below(7) {
                    0 => r.next(),
                    1 => r.f64().to_bits(),
                    2 => r.f32().to_bits() as u64 | (r.next() & 0xffff_ffff) << 32,
                    // all exponent bits set
                    3 => 0x7ff << 52 | (r.next() & 1) << 63 | if r.coin() { 0 } else { 1 << r.below(52) },
                    4 => 0xff << 23 | (r.next() & 1) << 31 | if r.coin() { 0 } else { 1 << r.below(23) },
                    5 => r.pick(&[0x7fe, 0x7fd, 0, 1]) << 52 | r.next() >> 12,
                    _ => r.u64(),
                };
                casts(cx, v);
                // decimal digits with at most one exception
                let r = &mut cx.rng;
                let mut b = 0u64;
                for k in 0..16 {
                    b |= (r.below(10) as u64) << (4 * k);
                }
                if r.coin() {
                    let k = r.below(16);
                    b = b & !(0xf << (4 * k)) | (r.range(8, 15) as u64) << (4 * k);
                }
                let b = if r.one_in(8) { r.next() } else { b };
                if i < 2 {
                    cx.sample(|| format!("bit casts and IS_VALID of {v:#x}, IS_VALID_BCD of {b:#x}"));
                }
                bcds!(cx, b, BYTE u8, WORD u16, DWORD u32, LWORD u64);
            }
        }),
        unit("all BYTE and WORD", 8, |cx| {
let ch = cx.chunk as u64;
            for v in (0..65536u64).filter(move |v| v % 8 == ch) {
                bcds!(cx, v, BYTE u8, WORD u16);
            }
        }),
    ];
    run(
        o,
        units,
        &[
            "BCD", "not BCD", "valid REAL", "invalid REAL", "valid LREAL", "invalid LREAL", "LWORD_TO_LREAL", "LREAL_TO_LWORD", "DWORD_TO_REAL", "REAL_TO_DWORD", "IS_VALID_BCD__BYTE",
            "IS_VALID_BCD__WORD", "IS_VALID_BCD__DWORD", "IS_VALID_BCD__LWORD",
        ],
    )
}

// ---------------------------------------------------------------------------------------------- C27

fn lens(r: &mut gen::Rng) -> usize {
    match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => r.pick(&[4usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        4 if r.one_in(20) => r.pick(&[255usize, 256, 257, 300, 1000]),
        4 if r.one_in(150) => r.pick(&[32767usize, 32768, 65535, 65536, 65537]),
        _ => 1 + r.below(12),
    }
}
macro_rules! order_ints {
    ($cx:ident, $g:ident, $n:ident, $lo:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let r = &mut $cx.rng;
        let base = r.int();
        let v: Vec<$t> = (0..$n).map(|_| match $lo { 0 => r.int() as $t, 1 => (base + r.range(-3, 3) as i128) as $t, _ => r.pick(&[<$t>::MIN, <$t>::MAX, <$t>::MIN + 1, <$t>::MAX - 1, 0, 1]) }).collect();
        let (mut mx, mut mn) = (v[0], v[0]);
        for x in &v {
            if *x > mx { mx = *x }
            if *x < mn { mn = *x }
        }
        let p = $g.put(&v, 0x7f);
        $g.protect(true);
        let name = stringify!([<MAX__ $s>]);
        let got = unsafe { call(name, &[v.len() as u64, v[0] as u64], || [<MAX__ $s>](v.len() as u32, p)) };
        $cx.expect(got, Some(mx), || format!("{name}{v:?}"));
        let h = hashes(&[hash_str(name), hash_bytes($g.bytes())]);
        $cx.eval(h, v.len() > 1);
        $cx.ev(name);
        let name = stringify!([<MIN__ $s>]);
        let got = unsafe { call(name, &[v.len() as u64, v[0] as u64], || [<MIN__ $s>](v.len() as u32, p)) };
        $g.protect(false);
        $cx.expect(got, Some(mn), || format!("{name}{v:?}"));
        $cx.eval(h ^ 1, v.len() > 1);
        $cx.ev(name);
        $cx.ev(match v.iter().position(|x| *x == mx) { _ if v.len() == 1 => "one operand", Some(0) => "greatest first", Some(k) if k == v.len() - 1 => "greatest last", _ => "greatest in between" });
        // limit
        let r = &mut $cx.rng;
        let (a, b) = (r.int() as $t, if r.coin() { r.int() as $t } else { v[0] });
        let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
        let x = match r.below(5) { 0 => lo, 1 => hi, 2 => lo.wrapping_sub(1), 3 => hi.wrapping_add(1), _ => r.int() as $t };
        let name = stringify!([<LIMIT__ $s>]);
        let got = unsafe { call(name, &[lo as u64, x as u64, hi as u64], || [<LIMIT__ $s>](lo, x, hi)) };
        let want = if x < lo { lo } else if x > hi { hi } else { x };
        $cx.expect(got, Some(want), || format!("{name}({lo}, {x}, {hi})"));
        $cx.eval(hashes(&[hash_str(name), lo as u64, x as u64, hi as u64]), lo < hi);
        $cx.ev(name);
        $cx.ev(if x < lo { "below the range" } else if x > hi { "above the range" } else { "within the range" });
    } )* } };
}
macro_rules! order_floats {
    ($cx:ident, $g:ident, $n:ident, $lo:ident, $($s:ident $t:ty, $gen:ident),*) => { paste! { $( {
        let r = &mut $cx.rng;
        let v: Vec<$t> = (0..$n).map(|_| match $lo { 0 => r.$gen(), 1 => r.range(-3, 3) as $t, _ => r.pick(&[<$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY, 0.0, -0.0, 1.5, -1.5, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE]) }).collect();
        let nums: Vec<$t> = v.iter().copied().filter(|x| !x.is_nan()).collect();
        let (mut mx, mut mn) = (<$t>::NAN, <$t>::NAN);
        for x in &nums {
            if mx.is_nan() || *x > mx { mx = *x }
            if mn.is_nan() || *x < mn { mn = *x }
        }
        let eq = |a: Result<$t, ()>, b: $t| a.map_or(false, |a| a == b || (a.is_nan() && b.is_nan()));
        let p = $g.put(&v, 0x7f);
        $g.protect(true);
        let name = stringify!([<MAX__ $s>]);
        let got = unsafe { call(name, &[v.len() as u64], || [<MAX__ $s>](v.len() as u32, p)) };
        $cx.check(eq(got, mx), name, || format!("{name}{v:?}: got {got:?}, expected {mx:?}"));
        let h = hashes(&[hash_str(name), hash_bytes($g.bytes())]);
        $cx.eval(h, v.len() > 1);
        $cx.ev(name);
        let name = stringify!([<MIN__ $s>]);
        let got = unsafe { call(name, &[v.len() as u64], || [<MIN__ $s>](v.len() as u32, p)) };
        $g.protect(false);
        $cx.check(eq(got, mn), name, || format!("{name}{v:?}: got {got:?}, expected {mn:?}"));
        $cx.eval(h ^ 1, v.len() > 1);
        $cx.ev(name);
        $cx.ev(if nums.is_empty() { "NaN only" } else if nums.len() < v.len() { "NaN among the operands" } else { "numbers" });
        let r = &mut $cx.rng;
        let (a, b) = (r.$gen(), r.$gen());
        if !a.is_nan() && !b.is_nan() {
            let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
            let x = match r.below(4) { 0 => lo, 1 => hi, 2 => lo / 2.0 + hi / 2.0, _ => r.$gen() };
            let name = stringify!([<LIMIT__ $s>]);
            let got = unsafe { call(name, &[], || [<LIMIT__ $s>](lo, x, hi)) };
            let want = if x < lo { lo } else if x > hi { hi } else { x };
            $cx.check(eq(got, want), name, || format!("{name}({lo:?}, {x:?}, {hi:?}): got {got:?}, expected {want:?}"));
            $cx.eval(hashes(&[hash_str(name), lo.to_bits() as u64, x.to_bits() as u64, hi.to_bits() as u64]), lo < hi);
            $cx.ev(name);
        }
    } )* } };
}
/// Without an operand there is no greatest one: refused.
macro_rules! no_operands {
    ($cx:ident, $($s:ident $t:ty),*) => { paste! { $( {
        let some: [$t; 1] = [1 as $t];
        for (n, p) in [(0u32, some.as_ptr()), (0, std::ptr::null()), (1, std::ptr::null()), (5, std::ptr::null())] {
            for max in [true, false] {
                let name = if max { stringify!([<MAX__ $s>]) } else { stringify!([<MIN__ $s>]) };
                let got = unsafe { call(name, &[n as u64, p.is_null() as u64], || if max { [<MAX__ $s>](n, p) } else { [<MIN__ $s>](n, p) }) };
                $cx.check(got.is_err(), name, || format!("{name} of {n} operands{}: got {got:?}, expected a refusal", if p.is_null() { " at a null pointer" } else { "" }));
                $cx.eval(hashes(&[hash_str(name), 999, n as u64, p.is_null() as u64]), true);
                $cx.ev("no operands");
            }
        }
    } )* } };
}
pub fn c27(o: Opts) -> ! {
    let units = vec![unit("no operands", 1, |cx| {
        no_operands!(cx, BOOL u8, BYTE u8, CHAR u8, WORD u16, WCHAR u16, DWORD u32, LWORD u64, SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64, DATE i64, DATE_AND_TIME i64, TIME i64, TIME_OF_DAY i64, REAL f32, LREAL f64);
    }), unit("operands", 16, |cx| {
        let (mut small, mut big) = (Guard::new(1000 * 8), Guard::new(70_000 * 8));
        for i in 0..cx.n(1_500) {
            if cx.stop() {
                return;
            }
            let n = lens(&mut cx.rng);
            let lo = cx.rng.below(3);
            let g = if n > 1000 { &mut big } else { &mut small };
            if i < 2 {
                cx.sample(|| format!("MAX, MIN of {n} operands and LIMIT, of all types"));
            }
            order_ints!(cx, g, n, lo, BYTE u8, CHAR u8, WORD u16, WCHAR u16, DWORD u32, LWORD u64, SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64, DATE i64, DATE_AND_TIME i64, TIME i64, TIME_OF_DAY i64);
            order_floats!(cx, g, n, lo, REAL f32, f32, LREAL f64, f64);
            // BOOL
            let v: Vec<u8> = (0..n).map(|_| cx.rng.coin() as u8).collect();
            let p = g.put(&v, 0x7f);
            g.protect(true);
            let a = unsafe { call("MAX__BOOL", &[n as u64], || MAX__BOOL(n as u32, p)) };
            let b = unsafe { call("MIN__BOOL", &[n as u64], || MIN__BOOL(n as u32, p)) };
            g.protect(false);
            cx.ev("BOOL");
            cx.check(a == Ok(v.contains(&1) as u8), "MAX__BOOL", || format!("MAX__BOOL{v:?} = {a:?}"));
            cx.check(b == Ok(!v.contains(&0) as u8), "MIN__BOOL", || format!("MIN__BOOL{v:?} = {b:?}"));
            cx.eval(hashes(&[9, hash_bytes(&v)]), n > 1);
            let (lo, x, hi) = cx.rng.pick(&[(0u8, 0u8, 0u8), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1)]);
            let c = unsafe { call("LIMIT__BOOL", &[lo as u64, x as u64, hi as u64], || LIMIT__BOOL(lo, x, hi)) };
            cx.expect(c, Some(x.clamp(lo, hi)), || format!("LIMIT__BOOL({lo}, {x}, {hi})"));
            cx.eval(hashes(&[10, lo as u64, x as u64, hi as u64]), lo < hi);
        }
    })];
    run(
        o,
        units,
        &[
            "one operand", "greatest first", "greatest last", "greatest in between", "below the range", "above the range", "within the range", "NaN only", "NaN among the operands", "numbers", "BOOL", "no operands",
            "MAX__BYTE", "MIN__CHAR", "LIMIT__WORD", "MAX__WCHAR", "MAX__DWORD", "MIN__LWORD", "MAX__SINT", "MIN__USINT", "MAX__INT", "MIN__UINT", "LIMIT__DINT", "MAX__UDINT", "MIN__LINT", "LIMIT__ULINT",
            "MAX__DATE", "MIN__TIME", "LIMIT__TIME_OF_DAY", "MAX__DATE_AND_TIME", "MAX__REAL", "MIN__LREAL", "LIMIT__REAL", "LIMIT__LREAL",
        ],
    )
}
