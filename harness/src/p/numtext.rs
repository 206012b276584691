//! C07 - C10: numbers, dates and times as text.
use crate::big;
use crate::cal;
use crate::ffi::*;
use crate::mem::Guard;
use crate::*;
use num::{BigInt, BigRational, Signed, Zero};

/// Runs a conversion into a STRING of default length holding stale text; the bytes in front of the
/// terminator. Err: rejected; Ok(None): not terminated.
fn to_text(cx: &mut Ctx, g: &mut Guard, name: &'static str, arg: u64, f: impl FnOnce(*mut u8) -> i32) -> Result<Option<Vec<u8>>, ()> {
    let style = cx.rng.below(5);
    let k = cx.rng.next();
    let d = g.dest(
        81,
        |i| match style {
            0 => 0,
            1 => b'9',
            2 => 0xff,
            3 => b"-12345.678901e+308d23h59m59s999ms"[i % 33],
            _ => mix(k ^ i as u64) as u8,
        },
        0x11,
    );
    call(name, &[arg], || f(d)).map(|status| {
        cx.check(status == 0, "status", || format!("{name}({arg:#x}): delivers {status} as its status, expected 0 (success)"));
        let b = g.bytes();
        b.iter().position(|c| *c == 0).map(|e| b[..e].to_vec())
    })
}
fn want_text(cx: &mut Ctx, got: Result<Option<Vec<u8>>, ()>, want: &str, desc: impl FnOnce() -> String) {
    let ok = matches!(&got, Ok(Some(t)) if t == want.as_bytes());
    cx.check(ok, "text", || {
        let g = match got {
            Err(()) => "a rejection (panic)".to_string(),
            Ok(None) => "an unterminated text".to_string(),
            Ok(Some(t)) => format!("{:?}", esc(&t)),
        };
        format!("{}: got {g}, expected {want:?}", desc())
    });
}
/// Decimal digits of a number, written independently of the formatting machinery of std.
fn dec(v: i128) -> String {
    let mut n = v.unsigned_abs();
    let mut o = vec![];
    loop {
        o.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if v < 0 {
        o.push(b'-');
    }
    o.reverse();
    String::from_utf8(o).unwrap()
}
fn put(g: &mut Guard, t: &[u8]) -> *const u8 {
    let mut v = t.to_vec();
    v.push(0);
    g.put(&v, 0x22)
}

pub fn c07(o: Opts) -> ! {
    let units = vec![
        unit("BYTE", 1, |cx| {
            let mut g = Guard::new(4096);
            for v in 0..=255u8 {
                for _ in 0..8 {
                    let t = to_text(cx, &mut g, "BYTE_TO_STRING_EXT", v as u64, |d| unsafe {
                        BYTE_TO_STRING_EXT(v, d)
                    });
                    want_text(cx, t, &dec(v as i128), || format!("BYTE_TO_STRING({v})"));
                    cx.ev("BYTE enumerated");
                    cx.eval(hashes(&[1, v as u64]), true);
                }
            }
        }),
        unit("64 bit", 24, |cx| {
            let mut g = Guard::new(4096);
            let mut s = Guard::new(4096);
            for i in 0..cx.n(40_000) {
                if cx.stop() {
                    return;
                }
                let v = cx.rng.int();
                let (u, x) = (v as u64, v as i64);
                let t = to_text(cx, &mut g, "LWORD_TO_STRING_EXT", u, |d| unsafe {
                    LWORD_TO_STRING_EXT(u, d)
                });
                want_text(cx, t, &dec(u as i128), || format!("LWORD_TO_STRING({u})"));
                cx.ev(if u >> 63 == 1 { "LWORD beyond LINT" } else { "LWORD" });
                cx.eval(hashes(&[2, u]), true);
                let t = to_text(cx, &mut g, "LINT_TO_STRING_EXT", x as u64, |d| unsafe {
                    LINT_TO_STRING_EXT(x, d)
                });
                want_text(cx, t.clone(), &dec(x as i128), || format!("LINT_TO_STRING({x})"));
                cx.ev(if x < 0 { "negative LINT" } else { "LINT" });
                cx.eval(hashes(&[3, u]), true);
                if i < 2 {
                    cx.sample(|| format!("LINT_TO_STRING({x}) = {:?}, LWORD_TO_STRING({u})", t.as_ref().map(|t| t.as_ref().map(|t| esc(t)))));
                }
                // and back
                if let Ok(Some(t)) = t {
                    if t.len() < 80 {
                        let p = put(&mut s, &t);
                        set_bufs(&[&t]);
                        let back = unsafe { call("STRING_TO_LINT", &[], || STRING_TO_LINT(p)) };
                        cx.ev("round trip");
                        cx.expect(back, Some(x), || format!("STRING_TO_LINT(LINT_TO_STRING({x}))"));
                        if let Ok(y) = i32::try_from(x) {
                            set_bufs(&[&t]);
                            let back = unsafe { call("STRING_TO_DINT", &[], || STRING_TO_DINT(p)) };
                            cx.expect(back, Some(y), || format!("STRING_TO_DINT(LINT_TO_STRING({x}))"));
                        }
                    }
                }
            }
        }),
    ];
    run(o, units, &["BYTE enumerated", "LWORD beyond LINT", "negative LINT", "LINT", "round trip"])
}

// ---------------------------------------------------------------------------------------------- C08

pub fn parse_model(t: &[u8], min: i128, max: i128) -> Option<i128> {
    let (d, radix) = if let Some(x) = t.strip_prefix(b"16#").or(t.strip_prefix(b"0x")).or(t.strip_prefix(b"0X")) {
        (x, 16)
    } else if let Some(x) = t.strip_prefix(b"8#") {
        (x, 8)
    } else if let Some(x) = t.strip_prefix(b"2#").or(t.strip_prefix(b"0b")).or(t.strip_prefix(b"0B")) {
        (x, 2)
    } else {
        (t, 10)
    };
    let (neg, d) = match d.first() {
        Some(b'-') => (true, &d[1..]),
        Some(b'+') => (false, &d[1..]),
        _ => (false, d),
    };
    if d.is_empty() {
        return None;
    }
    let mut v: i128 = 0;
    for c in d {
        let x = (*c as char).to_digit(radix)?;
        if !c.is_ascii() {
            return None;
        }
        v = v * radix as i128 + x as i128;
        if v > 1 << 100 {
            // too large in any case, remaining characters still have to be digits
            v = 1 << 100;
        }
    }
    let v = if neg { -v } else { v };
    (v >= min && v <= max).then_some(v)
}
fn radix_text(v: u128, radix: u128, upper: bool) -> Vec<u8> {
    let mut n = v;
    let mut o = vec![];
    loop {
        let c = b"0123456789abcdef"[(n % radix) as usize];
        o.push(if upper { c.to_ascii_uppercase() } else { c });
        n /= radix;
        if n == 0 {
            break;
        }
    }
    o.reverse();
    o
}
pub fn int_text(r: &mut Rng) -> Vec<u8> {
    let mut v = r.int();
    if r.one_in(3) {
        // around the limits of both types
        v = r.pick(&[i64::MAX as i128, i64::MIN as i128, i32::MAX as i128, i32::MIN as i128, u64::MAX as i128, u32::MAX as i128, 0]) + r.range(-3, 3) as i128;
    }
    if r.one_in(20) {
        v = v.wrapping_mul(r.pick(&[10i128, 1 << 64, 1 << 32, 1000]));
    }
    let (prefix, radix): (&[u8], u128) = match r.below(12) {
        0 => (b"16#", 16),
        1 => (b"0x", 16),
        2 => (b"0X", 16),
        3 => (b"8#", 8),
        4 => (b"2#", 2),
        5 => (b"0b", 2),
        6 => (b"0B", 2),
        _ => (b"", 10),
    };
    let mut t = prefix.to_vec();
    if v < 0 {
        if radix == 10 || r.one_in(3) {
            t.push(b'-');
        }
    } else if r.one_in(10) {
        t.push(b'+');
    }
    if r.one_in(6) {
        let n = if r.one_in(10) { 100 } else { r.below(30) };
        t.extend(std::iter::repeat(b'0').take(n));
    }
    t.extend(radix_text(v.unsigned_abs(), radix, r.coin()));
    t
}
pub fn mutate(r: &mut Rng, t: &mut Vec<u8>) {
    let pool: &[&[u8]] = &[b" ", b"_", b"-", b"+", b"#", b"x", b"b", b"g", b"G", b".", b"e", b"0", b"9", b"8", b"2", b"f", b"\n", b"\t", b"\xc2\xa0", b"\xd9\xa3", b"\xff", b"\x80", b"16#", b"0x", b",", b"\xef\xbc\x91", b"@", b"`", b"/", b":", b"o", b"0o", b"8#", b"10#"];
    match r.below(6) {
        0 if !t.is_empty() => {
            let k = r.below(t.len());
            t.remove(k);
        }
        1 if !t.is_empty() => {
            let k = r.below(t.len());
            t[k] = 1 + r.below(255) as u8;
        }
        2 => t.clear(),
        3 if !t.is_empty() => {
            let k = r.below(t.len());
            t.truncate(k)
        }
        _ => {
            let k = match r.below(3) {
                0 => 0,
                1 => t.len(),
                _ => r.below(t.len() + 1),
            };
            let x = r.pick(pool);
            t.splice(k..k, x.iter().copied());
        }
    }
}
fn ints(cx: &mut Ctx) {
    let mut g = Guard::new(4096);
    for i in 0..cx.n(60_000) {
        if cx.stop() {
            return;
        }
        let mut t = int_text(&mut cx.rng);
        if cx.rng.one_in(2) {
            for _ in 0..1 + cx.rng.below(2) {
                mutate(&mut cx.rng, &mut t);
            }
        }
        int_one(cx, &mut g, &t);
        if i < 2 {
            cx.sample(|| format!("STRING_TO_LINT({:?}) = {:?}", esc(&t), parse_model(&t, i64::MIN as i128, i64::MAX as i128)));
        }
    }
}
fn int_one(cx: &mut Ctx, g: &mut Guard, t: &[u8]) {
    let p = put(g, t);
    let w64 = parse_model(t, i64::MIN as i128, i64::MAX as i128).map(|v| v as i64);
    let w32 = parse_model(t, i32::MIN as i128, i32::MAX as i128).map(|v| v as i32);
    cx.eval(hash_bytes(t), !t.is_empty());
    cx.ev(match (w64, w32) {
        (None, _) => "rejected text",
        (Some(_), None) => "LINT which is no DINT",
        _ if t.contains(&b'#') => "based literal",
        _ if t.get(1).map_or(false, |c| matches!(c, b'x' | b'X' | b'b' | b'B')) => "prefixed literal",
        (Some(v), _) if v < 0 => "negative",
        _ => "decimal",
    });
    set_bufs(&[t]);
    let got = unsafe { call("STRING_TO_LINT", &[], || STRING_TO_LINT(p)) };
    cx.expect(got, w64, || format!("STRING_TO_LINT({:?})", esc(t)));
    set_bufs(&[t]);
    let got = unsafe { call("STRING_TO_DINT", &[], || STRING_TO_DINT(p)) };
    cx.expect(got, w32, || format!("STRING_TO_DINT({:?})", esc(t)));
}
fn ints_exhaustive(cx: &mut Ctx) {
    let mut g = Guard::new(4096);
    let alpha = b"0178abFx#-+ 2";
    let max = if cx.thorough() { 5 } else { 4 };
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    let mut l = 0;
    loop {
        for t in &layer {
            if cx.stop() {
                return;
            }
            int_one(cx, &mut g, t);
            cx.ev("short text enumerated");
        }
        l += 1;
        if l > max {
            break;
        }
        layer = layer.iter().flat_map(|t| alpha.iter().map(|c| [&t[..], &[*c]].concat()).collect::<Vec<_>>()).collect();
        if l == 1 {
            // every single byte
            layer = (1..=255u8).map(|c| vec![c]).collect();
            for t in &layer {
                int_one(cx, &mut g, t);
            }
            layer = alpha.iter().map(|c| vec![*c]).collect();
        }
    }
}
pub fn c08(o: Opts) -> ! {
    let units = vec![unit("texts", 32, ints), unit("short texts", 1, ints_exhaustive)];
    run(o, units, &["rejected text", "LINT which is no DINT", "based literal", "prefixed literal", "negative", "decimal", "short text enumerated"])
}

// ---------------------------------------------------------------------------------------------- C09

/// Is `t` a correct text of the finite number `v`?
pub fn float_text_ok(v: f64, t: &str, limit: f64) -> Result<(), String> {
    if v.is_nan() {
        return if t == "NaN" { Ok(()) } else { Err("expected NaN".into()) };
    }
    if v.is_infinite() {
        let w = if v > 0.0 { "inf" } else { "-inf" };
        return if t == w { Ok(()) } else { Err(format!("expected {w}")) };
    }
    let x = big::exact(v);
    let ten = BigRational::from(BigInt::from(10));
    let body = t.strip_prefix('-').unwrap_or(t);
    let val = big::decimal(t).ok_or("not a number")?;
    if t.starts_with('-') != v.is_sign_negative() && !val.is_zero() {
        return Err("wrong sign".into());
    }
    let fixed = v.abs().floor() < limit;
    let (m, e) = match body.split_once('e') {
        None => (body, 0i32),
        Some((m, e)) => (m, e.parse::<i32>().map_err(|_| "bad exponent")?),
    };
    if fixed == body.contains('e') {
        return Err(format!("{} notation expected", if fixed { "plain" } else { "scientific" }));
    }
    let (i, f) = m.split_once('.').ok_or("no fraction")?;
    if f.len() != 6 || i.is_empty() || (i.len() > 1 && i.starts_with('0')) || (!fixed && (i.len() != 1 || i == "0")) {
        return Err("6 digits of fraction expected, no leading zeros".into());
    }
    let ulp = if e >= 6 { BigRational::from(big::pow10((e - 6) as u32)) } else { BigRational::new(1.into(), big::pow10((6 - e) as u32)) };
    let d = (val - &x).abs() * BigRational::from(BigInt::from(2));
    // the mantissa may have been rounded up to the next power of ten: finer spacing below
    let _ = ten;
    if d > ulp {
        return Err("not the nearest text".into());
    }
    Ok(())
}

fn midpoints(r: &mut Rng) -> String {
    // exact decimal expansion of a midpoint between neighbouring floats, and neighbours of it
    let single = r.coin();
    let x = if single {
        let b = (r.next() as u32) & 0x7fff_ffff;
        let v = f32::from_bits(if r.one_in(4) { b % (1 << 24) } else { b });
        if !v.is_finite() {
            return "1".into();
        }
        let n = f32::from_bits(v.to_bits() + 1);
        if !n.is_finite() {
            return "3.4028235677973366e38".into();
        }
        (big::exact(v as f64) + big::exact(n as f64)) / BigRational::from(BigInt::from(2))
    } else {
        // limited exponents: long expansions
        let e = (1023 + r.range(-80, 80)) as u64;
        let v = f64::from_bits(e << 52 | r.next() >> 12);
        (big::exact(v) + big::exact(f64::from_bits(v.to_bits() + 1))) / BigRational::from(BigInt::from(2))
    };
    // the denominator is a power of two: expand exactly
    let mut k = 0u32;
    let mut n = x.clone();
    let mut d: BigInt = n.denom().clone();
    while d > BigInt::from(1) {
        d /= 2;
        k += 1;
    }
    n *= BigRational::from(big::pow10(k));
    let mut digits = n.to_integer().to_string();
    if digits.len() <= k as usize {
        digits = "0".repeat(k as usize + 1 - digits.len()) + &digits;
    }
    let at = digits.len() - k as usize;
    let mut t = format!("{}.{}", &digits[..at], &digits[at..]);
    match r.below(4) {
        0 => t.push('1'),
        1 => {
            // slightly below
            let l = t.len();
            if t.ends_with(|c: char| ('1'..='9').contains(&c)) {
                let c = (t.as_bytes()[l - 1] - 1) as char;
                t.pop();
                t.push(c);
                t.push('9');
            }
        }
        _ => {}
    }
    t
}
pub fn float_text(r: &mut Rng) -> Vec<u8> {
    let mut t = match r.below(12) {
        0 => format!("{}", r.f64()),
        1 => format!("{:e}", r.f64()),
        2 => format!("{:.6}", r.f64()),
        3 => format!("{}", r.f32()),
        4 => r.pick(&["inf", "-inf", "nan", "NaN", "infinity", "+Infinity", "INF", "-NAN", "iNfInItY"]).to_string(),
        5 | 6 => midpoints(r),
        7 => format!("{}{}.{}e{}", r.pick(&["", "-", "+"]), r.below(1000), r.below(1 << 30), r.range(-340, 320)),
        8 => format!("{}e{}", r.u64(), r.range(-60, 60)),
        9 => r.pick(&["1.", ".5", "-.5e1", "5.e-3", "0e0", "-0", "1e400", "1e-400", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623159e308", "3.4028235e38", "3.4028236e38", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "7e-46", "7.006492321624086e-46", "16777217", "9007199254740993", "2.2250738585072011e-308"]).to_string(),
        10 => {
            let n = 1 + r.below(300);
            let z = r.below(30);
            let s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            format!("{}{}.{}{}", r.pick(&["", "-"]), "0".repeat(z), "0".repeat(r.below(20)), s)
        }
        _ => format!("{}", r.i64()),
    };
    if r.one_in(6) {
        t = t.to_uppercase();
    }
    t.into_bytes()
}
pub enum Parsed {
    Num(BigRational, bool),
    Inf(bool),
    Nan,
    Bad,
}
pub fn float_grammar(t: &[u8]) -> Parsed {
    let Ok(s) = std::str::from_utf8(t) else { return Parsed::Bad };
    let neg = s.starts_with('-');
    let b = s.strip_prefix(['+', '-']).unwrap_or(s);
    match b.to_ascii_lowercase().as_str() {
        "inf" | "infinity" => return Parsed::Inf(neg),
        "nan" => return Parsed::Nan,
        _ => {}
    }
    if b.starts_with(['+', '-']) {
        return Parsed::Bad;
    }
    match big::decimal(b) {
        Some(v) => Parsed::Num(if neg { -v } else { v }, neg),
        None => Parsed::Bad,
    }
}
/// Is `r` what a text with the meaning `w` has to be read as?
pub fn parsed_as(w: &Parsed, r: &Result<f64, ()>, single: bool) -> bool {
    match (w, r) {
        (Parsed::Bad, r) => r.is_err(),
        (Parsed::Nan, Ok(v)) => v.is_nan(),
        (Parsed::Inf(n), Ok(v)) => v.is_infinite() && v.is_sign_negative() == *n,
        (Parsed::Num(x, n), Ok(v)) => v.is_sign_negative() == *n && if single { (*v as f32) as f64 == *v && big::nearest_f32(x, *v as f32) } else { big::nearest_f64(x, *v) },
        _ => false,
    }
}
fn floats_parse(cx: &mut Ctx) {
    let mut g = Guard::new(8192);
    for i in 0..cx.n(12_000) {
        if cx.stop() {
            return;
        }
        let mut t = float_text(&mut cx.rng);
        if cx.rng.one_in(4) {
            mutate(&mut cx.rng, &mut t);
        }
        t.truncate(2000);
        let p = put(&mut g, &t);
        set_bufs(&[&t]);
        let a = unsafe { call("STRING_TO_LREAL", &[], || STRING_TO_LREAL(p)) };
        set_bufs(&[&t]);
        let b = unsafe { call("STRING_TO_REAL", &[], || STRING_TO_REAL(p)) };
        cx.eval(hash_bytes(&t), !t.is_empty());
        let w = float_grammar(&t);
        let ok = |r: &Result<f64, ()>, single: bool| parsed_as(&w, r, single);
        cx.ev(match &w {
            Parsed::Bad => "rejected text",
            Parsed::Nan | Parsed::Inf(_) => "special value",
            Parsed::Num(x, _) if x.is_zero() => "zero",
            Parsed::Num(..) if a.map_or(false, |v| v.is_infinite()) => "overflow",
            Parsed::Num(..) if t.len() > 40 => "number of more than 40 digits",
            _ => "number",
        });
        if i < 2 {
            cx.sample(|| format!("STRING_TO_LREAL({:?}) = {a:?}, STRING_TO_REAL = {b:?}", esc(&t)));
        }
        cx.check(ok(&a, false), "parse", || format!("STRING_TO_LREAL({:?}) = {a:?} is not the nearest value / should be rejected / accepted", esc(&t)));
        let b = b.map(|v| v as f64);
        cx.check(ok(&b, true), "parse", || format!("STRING_TO_REAL({:?}) = {b:?} is not the nearest value / should be rejected / accepted", esc(&t)));
    }
}
fn floats_print(cx: &mut Ctx) {
    let mut g = Guard::new(4096);
    let mut s = Guard::new(4096);
    for i in 0..cx.n(15_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let v = match r.below(6) {
            0 => {
                // around the switch of the notation
                let b: f64 = r.pick(&[1e14, 1e6, 1e15, 1e13, 999_999.0, 1e7, 1e5]);
                let x = b + r.pick(&[0.0, -1.0, 1.0, -0.5, 0.5, -0.000001, -0.25, 0.25]);
                let x = f64::from_bits((x.to_bits() as i64 + r.range(-2, 2)) as u64);
                if r.coin() { -x } else { x }
            }
            1 => {
                // ties and carries in the 6th place
                let k = r.range(-4_000_000_000, 4_000_000_000) as f64;
                (k + r.pick(&[0.5, 0.4999, 0.5001, 0.0])) / 1e6
            }
            2 => r.range(-1 << 40, 1 << 40) as f64 / 128.0 / 1024.0,
            3 => {
                let d = r.pick(&[0.9999995f64, 0.9999994, 9.9999995, 99999.9999995, 9.9999995e20, 9.9999994e20, 9.9999996e99]);
                if r.coin() { -d } else { d }
            }
            _ => r.f64(),
        };
        for (k, name) in [(0, "LREAL_TO_STRING_EXT"), (1, "REAL_TO_STRING_EXT")] {
            let v = if k == 1 && cx.rng.coin() { (v as f32) as f64 } else { v };
            let t = to_text(cx, &mut g, name, v.to_bits(), |d| unsafe {
                if k == 0 {
                    LREAL_TO_STRING_EXT(v, d)
                } else {
                    REAL_TO_STRING_EXT(v, d)
                }
            });
            cx.eval(hashes(&[v.to_bits(), k as u64]), true);
            let limit = if k == 0 { 1e14 } else { 1e6 };
            cx.ev(if !v.is_finite() {
                "NaN or infinity"
            } else if v.abs().floor() < limit {
                if v < 0.0 { "plain notation, negative" } else { "plain notation" }
            } else if v < 0.0 {
                "scientific notation, negative"
            } else {
                "scientific notation"
            });
            let shown = match &t {
                Ok(Some(t)) => String::from_utf8_lossy(t).to_string(),
                Ok(None) => "<not terminated>".into(),
                Err(()) => "<rejected>".into(),
            };
            if i < 1 {
                cx.sample(|| format!("{name}({v:?}) = {shown:?}"));
            }
            match float_text_ok(v, &shown, limit) {
                Err(e) => cx.violation("text", || format!("{name}({v:?}, bits {:#x}): got {shown:?}: {e}", v.to_bits())),
                Ok(()) => {
                    // the text is readable and means the same number, up to the digits shown
                    let p = put(&mut s, shown.as_bytes());
                    set_bufs(&[shown.as_bytes()]);
                    let back = unsafe { call("STRING_TO_LREAL", &[], || STRING_TO_LREAL(p)) };
                    cx.ev("round trip");
                    let tol = if v.abs().floor() < limit { 0.5000001e-6 + v.abs() * 1e-15 } else { v.abs() * 0.5000001e-6 };
                    let ok = match back {
                        Ok(b) => b == v || (b.is_nan() && v.is_nan()) || (b - v).abs() <= tol || (b.is_infinite() && v.abs() > 1.797693e308),
                        Err(()) => false,
                    };
                    cx.check(ok, "round trip", || format!("STRING_TO_LREAL of {name}({v:?}) = {shown:?}: got {back:?}"));
                }
            }
        }
    }
}
pub fn c09(o: Opts) -> ! {
    let units = vec![unit("parse", 24, floats_parse), unit("print", 24, floats_print)];
    run(
        o,
        units,
        &["rejected text", "special value", "zero", "overflow", "number of more than 40 digits", "number", "NaN or infinity", "plain notation, negative", "plain notation", "scientific notation", "scientific notation, negative", "round trip"],
    )
}

// ---------------------------------------------------------------------------------------------- C10

pub fn clock_text(p: &cal::Parts) -> String {
    let f = if p.ns == 0 {
        String::new()
    } else if p.ns % 1_000_000 == 0 {
        format!(".{:03}", p.ns / 1_000_000)
    } else if p.ns % 1000 == 0 {
        format!(".{:06}", p.ns / 1000)
    } else {
        format!(".{:09}", p.ns)
    };
    format!("{:02}:{:02}:{:02}{f}", p.h, p.mi, p.s)
}
pub fn time_text(t: i64) -> String {
    let mut o = String::new();
    if t < 0 {
        o.push('-');
    }
    let mut n = (t as i128).unsigned_abs();
    for (u, unit) in [(86_400_000_000_000u128, "d"), (3_600_000_000_000, "h"), (60_000_000_000, "m"), (1_000_000_000, "s"), (1_000_000, "ms"), (1_000, "us"), (1, "ns")] {
        if n / u > 0 {
            o += &dec((n / u) as i128);
            o += unit;
        }
        n %= u;
    }
    o
}
pub fn c10(o: Opts) -> ! {
    let units = vec![unit("times", 32, |cx| {
        let mut g = Guard::new(4096);
        for i in 0..cx.n(30_000) {
            if cx.stop() {
                return;
            }
            let mut t = cal::gen(&mut cx.rng);
            if cx.rng.one_in(3) {
                // durations with some components only
                let mut v = 0i64;
                for u in [86_400_000_000_000i64, 3_600_000_000_000, 60_000_000_000, 1_000_000_000, 1_000_000, 1_000, 1] {
                    let k = match u {
                        86_400_000_000_000 => 106_000,
                        3_600_000_000_000 => 24,
                        60_000_000_000 | 1_000_000_000 => 60,
                        _ => 1000,
                    };
                    if cx.rng.coin() {
                        v += u * if cx.rng.one_in(3) { k - 1 } else { cx.rng.below(k as usize) as i64 };
                    }
                }
                t = if cx.rng.coin() { v } else { -v };
            }
            let p = cal::split(t);
            let date = format!("{:04}-{:02}-{:02}", p.y, p.mo, p.d);
            for k in 0..4u64 {
                let (name, want) = match k {
                    0 => ("DT_TO_STRING_EXT", format!("{date}-{}", clock_text(&p))),
                    1 => ("DATE_TO_STRING_EXT", date.clone()),
                    2 => ("TOD_TO_STRING_EXT", clock_text(&p)),
                    _ => ("TIME_TO_STRING_EXT", time_text(t)),
                };
                let got = to_text(cx, &mut g, name, t as u64, |d| unsafe {
                    match k {
                        0 => DT_TO_STRING_EXT(t, d),
                        1 => DATE_TO_STRING_EXT(t, d),
                        2 => TOD_TO_STRING_EXT(t, d),
                        _ => TIME_TO_STRING_EXT(t, d),
                    }
                });
                cx.eval(hashes(&[t as u64, k]), true);
                if i < 1 {
                    cx.sample(|| format!("{name}({t}) = {want:?}"));
                }
                want_text(cx, got, &want, || format!("{name}({t})"));
            }
            cx.ev(if t < 0 { "negative value" } else { "value" });
            cx.ev(match () {
                _ if p.ns == 0 => "whole seconds",
                _ if p.ns % 1_000_000 == 0 => "milliseconds",
                _ if p.ns % 1000 == 0 => "microseconds",
                _ => "nanoseconds",
            });
            if (p.mo, p.d) == (2, 29) {
                cx.ev("February 29th");
            }
        }
    })];
    run(o, units, &["negative value", "value", "whole seconds", "milliseconds", "microseconds", "nanoseconds", "February 29th"])
}
