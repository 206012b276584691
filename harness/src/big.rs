//! Exact arithmetic for the oracles.
use num::{BigInt, BigRational, One, Signed, ToPrimitive, Zero};

pub fn pow10(n: u32) -> BigInt {
    num::pow(BigInt::from(10), n as usize)
}
pub fn pow2(n: i32) -> BigRational {
    if n >= 0 {
        BigRational::from(num::pow(BigInt::from(2), n as usize))
    } else {
        BigRational::new(BigInt::one(), num::pow(BigInt::from(2), (-n) as usize))
    }
}
/// The exact value of a finite number.
pub fn exact(v: f64) -> BigRational {
    let bits = v.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1 << 52) - 1);
    assert!(e != 0x7ff);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let r = BigRational::from(BigInt::from(m)) * pow2(e);
    if bits >> 63 == 1 {
        -r
    } else {
        r
    }
}
/// Value of a plain or scientific decimal text (sign, digits, optional fraction and exponent).
pub fn decimal(t: &str) -> Option<BigRational> {
    let (neg, t) = match t.as_bytes().first()? {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => {
            let x = &t[i + 1..];
            let d = x.strip_prefix(['+', '-']).unwrap_or(x);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            let v: i64 = d.parse().unwrap_or(1 << 40);
            (&t[..i], if x.starts_with('-') { -v } else { v })
        }
        None => (t, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() && f.is_empty() || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let digits = format!("{i}{f}");
    let n: BigInt = digits.parse().ok()?;
    if n.is_zero() {
        return Some(BigRational::zero());
    }
    let e = e - f.len() as i64;
    // far outside of every format: avoid huge numbers, keep the order of magnitude
    let mag = e + digits.trim_start_matches('0').len() as i64;
    let e = if mag > 2000 { e - (mag - 2000) } else if mag < -2000 { e - (mag + 2000) } else { e };
    let r = if e >= 0 { BigRational::from(n * pow10(e as u32)) } else { BigRational::new(n, pow10((-e) as u32)) };
    Some(if neg { -r } else { r })
}

/// Is `got` the value nearest to `x` (ties to even) in a binary format with `mant` bits of mantissa
/// (incl. the hidden one), lowest exponent `emin` (of the last place of subnormals) and largest
/// finite value `max`? `bits` is the integer representation used for the parity of ties.
pub fn is_nearest(x: &BigRational, got: f64, mant: u32, emin: i32, max: f64, even: bool) -> bool {
    let two = BigRational::from(BigInt::from(2));
    let m = exact(max);
    // half an ulp beyond the maximum
    let ulp_max = {
        let mut e = 0i32;
        let mut v = max;
        while v >= 2.0 {
            v /= 2.0;
            e += 1;
        }
        pow2(e - (mant as i32 - 1))
    };
    let lim = &m + &ulp_max / &two;
    if got.is_infinite() {
        return if got > 0.0 { *x >= lim } else { *x <= -lim };
    }
    if got.is_nan() {
        return false;
    }
    if x.abs() >= lim {
        return false;
    }
    let g = exact(got);
    let d = (x - &g).abs();
    if d.is_zero() {
        return true;
    }
    // spacing above and below |got|
    let a = got.abs();
    let (up, down) = if a == 0.0 {
        (pow2(emin), pow2(emin))
    } else {
        let bits = a.to_bits();
        let mut e = ((bits >> 52) as i32) - 1023;
        if bits >> 52 == 0 {
            e = 63 - (bits.leading_zeros() as i32) - 1074;
        }
        let ue = (e - (mant as i32 - 1)).max(emin);
        let pow = a == exact_pow2(e);
        let de = if pow { (ue - 1).max(emin) } else { ue };
        (pow2(ue), pow2(de))
    };
    let outward = if got >= 0.0 && !(got == 0.0 && x.is_negative()) { *x > g } else { *x < g };
    let half = if outward { up / two } else { down / two };
    d < half || (d == half && even)
}
fn exact_pow2(e: i32) -> f64 {
    if e >= -1022 {
        f64::from_bits(((e + 1023) as u64) << 52)
    } else {
        f64::from_bits(1u64 << (e + 1074))
    }
}
pub fn nearest_f64(x: &BigRational, got: f64) -> bool {
    is_nearest(x, got, 53, -1074, f64::MAX, got.to_bits() & 1 == 0)
}
pub fn nearest_f32(x: &BigRational, got: f32) -> bool {
    is_nearest(x, got as f64, 24, -149, f32::MAX as f64, got.to_bits() & 1 == 0)
}
pub fn floor(r: &BigRational) -> BigInt {
    r.floor().to_integer()
}
pub fn approx(r: &BigRational) -> f64 {
    r.to_f64().unwrap_or(f64::NAN)
}
