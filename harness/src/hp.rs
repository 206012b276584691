//! Multi-precision floating point numbers (about 300 bits) and elementary functions, from series.
use num::{BigInt, BigRational, Integer, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::sync::OnceLock;

const P: u64 = 320;

#[derive(Clone, Debug)]
pub struct Hp {
    m: BigInt,
    e: i64,
}

impl Hp {
    fn new(m: BigInt, e: i64) -> Hp {
        Hp { m, e }.norm(P)
    }
    fn norm(mut self, p: u64) -> Hp {
        if self.m.is_zero() {
            self.e = 0;
            return self;
        }
        let b = self.m.bits();
        if b > p {
            let s = b - p;
            self.m >>= s;
            self.e += s as i64;
        }
        self
    }
    pub fn zero() -> Hp {
        Hp { m: BigInt::zero(), e: 0 }
    }
    pub fn int(v: i64) -> Hp {
        Hp { m: BigInt::from(v), e: 0 }
    }
    pub fn pow2(e: i64) -> Hp {
        Hp { m: BigInt::one(), e }
    }
    pub fn from_f64(v: f64) -> Hp {
        let b = v.to_bits();
        let x = (b >> 52 & 0x7ff) as i64;
        assert!(x != 0x7ff);
        let f = b & ((1 << 52) - 1);
        let (m, e) = if x == 0 { (f, -1074) } else { (f | 1 << 52, x - 1075) };
        let m = BigInt::from(m);
        Hp::new(if b >> 63 == 1 { -m } else { m }, e)
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_zero()
    }
    pub fn neg(&self) -> bool {
        self.m.is_negative()
    }
    pub fn minus(&self) -> Hp {
        Hp { m: -&self.m, e: self.e }
    }
    pub fn abs(&self) -> Hp {
        Hp { m: self.m.abs(), e: self.e }
    }
    pub fn half(&self) -> Hp {
        Hp { m: self.m.clone(), e: self.e - 1 }
    }
    fn shift(&self, k: i64) -> Hp {
        Hp { m: self.m.clone(), e: self.e + k }
    }
    pub fn mul_int(&self, k: i64) -> Hp {
        Hp::new(&self.m * k, self.e)
    }
    fn div_int(&self, k: i64) -> Hp {
        Hp::new((&self.m << 64u32) / k, self.e - 64)
    }
    /// floor(log2 |x|)
    pub fn exp2(&self) -> i64 {
        self.m.bits() as i64 - 1 + self.e
    }
    fn add_p(&self, o: &Hp, p: u64) -> Hp {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let (a, b) = if self.exp2() >= o.exp2() { (self, o) } else { (o, self) };
        if a.exp2() - b.exp2() > 2 * p as i64 {
            return a.clone();
        }
        let e = a.e.min(b.e);
        let s = (&a.m << (a.e - e) as u64) + (&b.m << (b.e - e) as u64);
        Hp { m: s, e }.norm(p)
    }
    pub fn add(&self, o: &Hp) -> Hp {
        self.add_p(o, P)
    }
    pub fn sub(&self, o: &Hp) -> Hp {
        self.add(&o.minus())
    }
    pub fn mul(&self, o: &Hp) -> Hp {
        Hp::new(&self.m * &o.m, self.e + o.e)
    }
    pub fn div(&self, o: &Hp) -> Hp {
        let s = P + 8 + o.m.bits();
        Hp::new((&self.m << s) / &o.m, self.e - o.e - s as i64)
    }
    pub fn cmp(&self, o: &Hp) -> Ordering {
        let d = self.sub(o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.neg() {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    fn sqrt(&self) -> Hp {
        let mut s = 2 * P + 8;
        if (self.e - s as i64).is_odd() {
            s += 1;
        }
        Hp::new((&self.m << s).sqrt(), (self.e - s as i64) / 2)
    }
    pub fn to_f64(&self) -> f64 {
        let b = self.m.bits() as i64;
        if b == 0 {
            return 0.0;
        }
        let s = (b - 60).max(0);
        let m = (&self.m >> s as u64).to_f64().unwrap();
        let e = self.e + s;
        let h = (e / 2) as i32;
        m * 2f64.powi(h) * 2f64.powi((e - h as i64) as i32)
    }
    pub fn to_ratio(&self) -> BigRational {
        BigRational::from(self.m.clone()) * crate::big::pow2(self.e as i32)
    }
}

/// Pi with many bits, as a fixed point number
const PIBITS: u64 = 1800;
fn pi_fixed() -> &'static BigInt {
    static V: OnceLock<BigInt> = OnceLock::new();
    V.get_or_init(|| {
        // Machin: pi = 16 atan(1/5) - 4 atan(1/239)
        let bits = PIBITS + 32;
        let atan_inv = |k: i64| {
            let mut t = (BigInt::one() << bits) / k;
            let mut s = t.clone();
            let mut n = 1i64;
            while !t.is_zero() {
                t = -(t / (k * k));
                n += 2;
                s += &t / n;
            }
            s
        };
        (atan_inv(5) * 16 - atan_inv(239) * 4) >> 32u32
    })
}
pub fn pi() -> Hp {
    Hp::new(pi_fixed().clone(), -(PIBITS as i64))
}

fn atan_small(x: &Hp) -> Hp {
    let x2 = x.mul(x);
    let mut t = x.clone();
    let mut s = x.clone();
    let mut n = 1;
    loop {
        t = t.mul(&x2).minus();
        n += 2;
        if t.is_zero() || t.exp2() < s.exp2() - P as i64 {
            return s;
        }
        s = s.add(&t.div_int(n));
    }
}
fn atan_hp(x: &Hp) -> Hp {
    if x.is_zero() {
        return x.clone();
    }
    if x.neg() {
        return atan_hp(&x.minus()).minus();
    }
    let one = Hp::int(1);
    if x.cmp(&one) == Ordering::Greater {
        return pi().half().sub(&atan_hp(&one.div(x)));
    }
    let mut y = x.clone();
    for _ in 0..3 {
        y = y.div(&one.add(&one.add(&y.mul(&y)).sqrt()));
    }
    atan_small(&y).shift(3)
}
pub fn atan(x: f64) -> Hp {
    atan_hp(&Hp::from_f64(x))
}
pub fn atan_quotient(y: f64, x: f64) -> Hp {
    let a = atan_hp(&Hp::from_f64(y).div(&Hp::from_f64(x.abs())));
    if x < 0.0 {
        pi().sub(&a)
    } else {
        a
    }
}
pub fn asin(x: f64) -> Hp {
    let v = Hp::from_f64(x);
    if x.abs() == 1.0 {
        let h = pi().half();
        return if x < 0.0 { h.minus() } else { h };
    }
    let c = Hp::int(1).sub(&v.mul(&v)).sqrt();
    atan_hp(&v.div(&c))
}
pub fn acos(x: f64) -> Hp {
    let v = Hp::from_f64(x);
    if x == -1.0 {
        return pi();
    }
    let one = Hp::int(1);
    atan_hp(&one.sub(&v).div(&one.add(&v)).sqrt()).shift(1)
}
pub fn sqrt(x: f64) -> Hp {
    Hp::from_f64(x).sqrt()
}

fn ln2() -> &'static Hp {
    static V: OnceLock<Hp> = OnceLock::new();
    V.get_or_init(|| atanh_series(&Hp::int(1).div(&Hp::int(3))).shift(1))
}
fn atanh_series(z: &Hp) -> Hp {
    let z2 = z.mul(z);
    let mut t = z.clone();
    let mut s = z.clone();
    let mut n = 1;
    loop {
        t = t.mul(&z2);
        n += 2;
        if t.is_zero() || t.exp2() < s.exp2() - P as i64 {
            return s;
        }
        s = s.add(&t.div_int(n));
    }
}
fn ln_hp(x: &Hp) -> Hp {
    // x = m * 2^k, m in 0.7 .. 1.4
    let mut k = x.exp2();
    let mut m = x.shift(-k);
    if m.cmp(&Hp::from_f64(1.4)) == Ordering::Greater {
        m = m.half();
        k += 1;
    }
    let one = Hp::int(1);
    let z = m.sub(&one).div(&m.add(&one));
    let l = if z.is_zero() { Hp::zero() } else { atanh_series(&z).shift(1) };
    l.add(&ln2().mul_int(k))
}
pub fn ln(x: f64) -> Hp {
    ln_hp(&Hp::from_f64(x))
}
pub fn log10(x: f64) -> Hp {
    static V: OnceLock<Hp> = OnceLock::new();
    ln(x).div(V.get_or_init(|| ln_hp(&Hp::int(10))))
}
fn exp_hp(x: &Hp) -> Hp {
    if x.is_zero() {
        return Hp::int(1);
    }
    let k = (x.to_f64() / std::f64::consts::LN_2).round() as i64;
    let mut r = x.sub(&ln2().mul_int(k));
    r = r.shift(-10);
    let mut t = Hp::int(1);
    let mut s = Hp::int(1);
    let mut n = 0;
    loop {
        n += 1;
        t = t.mul(&r).div_int(n);
        if t.is_zero() || t.exp2() < -(P as i64) {
            break;
        }
        s = s.add(&t);
    }
    for _ in 0..10 {
        s = s.mul(&s);
    }
    s.shift(k)
}
pub fn exp(x: f64) -> Hp {
    exp_hp(&Hp::from_f64(x))
}
pub fn pow(x: f64, y: f64) -> Hp {
    exp_hp(&ln_hp(&Hp::from_f64(x)).mul(&Hp::from_f64(y)))
}

pub fn sin_cos(x: f64) -> (Hp, Hp) {
    // reduce by multiples of pi / 2, in fixed point
    let v = Hp::from_f64(x);
    let fx = {
        let s = v.e + PIBITS as i64;
        if s >= 0 { &v.m << s as u64 } else { &v.m >> (-s) as u64 }
    };
    let half_pi: BigInt = pi_fixed() >> 1u32;
    let quarter: BigInt = pi_fixed() >> 2u32;
    let k = (&fx + quarter).div_floor(&half_pi);
    let r = if k.is_zero() {
        v
    } else {
        // the bits of pi beyond the fixed point number do not matter: x < 2^1024
        Hp::new(fx - &k * half_pi, -(PIBITS as i64))
    };
    let r2 = r.mul(&r);
    let series = |first: Hp, n0: i64| {
        let mut t = first.clone();
        let mut s = first;
        let mut n = n0;
        loop {
            t = t.mul(&r2).minus().div_int((n + 1) * (n + 2));
            n += 2;
            if t.is_zero() || t.exp2() < s.exp2() - P as i64 {
                return s;
            }
            s = s.add(&t);
        }
    };
    let sn = series(r.clone(), 1);
    let cs = series(Hp::int(1), 0);
    match (k.mod_floor(&BigInt::from(4))).to_u32().unwrap() {
        0 => (sn, cs),
        1 => (cs, sn.minus()),
        2 => (sn.minus(), cs.minus()),
        _ => (cs.minus(), sn),
    }
}
