//! C30: every stateless function returns the same result for the same arguments, whatever has been
//! called before and whatever is being called at the same time by other threads.
use crate::ffi::*;
use crate::*;
use paste::paste;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

type Out = Result<Vec<u8>, ()>;
pub struct Case {
    pub name: &'static str,
    args: Vec<u64>,
    pub run: Box<dyn Fn() -> Out + Send + Sync>,
    text: Option<Vec<u8>>,
}
impl Case {
    /// bytes of the arguments
    pub fn volume(&self) -> usize {
        self.args.len() * 8 + self.text.as_ref().map_or(0, |t| t.len())
    }
    /// texts in front of the arguments: the bytes of the operands of FIND
    pub fn texts(&self) -> usize {
        self.text.as_ref().map_or(0, |t| t.len())
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{}({})", self.name, self.args.iter().map(|a| format!("{a:#x}")).collect::<Vec<_>>().join(", "));
        if let Some(t) = &self.text {
            s += &format!(" texts={:?}", esc(t));
        }
        s
    }
}

trait Bits {
    fn bits(&self) -> Vec<u8>;
}
macro_rules! bits_of {
    ($($t:ty),*) => { $( impl Bits for $t { fn bits(&self) -> Vec<u8> { self.to_le_bytes().to_vec() } } )* };
}
bits_of!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Bits for bool {
    fn bits(&self) -> Vec<u8> {
        vec![*self as u8]
    }
}
impl Bits for () {
    fn bits(&self) -> Vec<u8> {
        vec![]
    }
}
// the sign and the payload of a NaN are not specified
impl Bits for f32 {
    fn bits(&self) -> Vec<u8> {
        if self.is_nan() { vec![1] } else { self.to_le_bytes().to_vec() }
    }
}
impl Bits for f64 {
    fn bits(&self) -> Vec<u8> {
        if self.is_nan() { vec![1] } else { self.to_le_bytes().to_vec() }
    }
}

trait Arb: Copy + Send + Sync + 'static {
    fn arb(r: &mut Rng) -> Self;
    fn word(self) -> u64;
    fn of(w: u64) -> Self;
}
macro_rules! arb {
    ($($t:ty, $g:ident);*) => { $( impl Arb for $t { fn arb(r: &mut Rng) -> Self { r.$g() } fn word(self) -> u64 { self as u64 } fn of(w: u64) -> Self { w as Self } } )* };
}
fn times(r: &mut Rng) -> i64 {
    match r.below(4) {
        // dates and times of everyday life, durations
        0 => r.range(-4_000_000_000, 8_000_000_000) * 1_000_000_000 + r.range(0, 999_999_999) * r.range(0, 1),
        1 => r.range(0, 20_000) * 86_400_000_000_000 + if r.coin() { 0 } else { r.range(0, 86_399_999_999_999) },
        _ => r.i64(),
    }
}
arb!(u8, u8; u16, u16; u32, u32; u64, u64; i8, i8; i16, i16; i32, i32);
impl Arb for i64 {
    fn arb(r: &mut Rng) -> i64 {
        times(r)
    }
    fn word(self) -> u64 {
        self as u64
    }
    fn of(w: u64) -> i64 {
        w as i64
    }
}
impl Arb for f32 {
    fn arb(r: &mut Rng) -> f32 {
        r.f32()
    }
    fn word(self) -> u64 {
        self.to_bits() as u64
    }
    fn of(w: u64) -> f32 {
        f32::from_bits(w as u32)
    }
}
impl Arb for f64 {
    fn arb(r: &mut Rng) -> f64 {
        r.f64()
    }
    fn word(self) -> u64 {
        self.to_bits()
    }
    fn of(w: u64) -> f64 {
        f64::from_bits(w)
    }
}

fn f1<A: Arb, R: Bits + 'static>(name: &'static str, r: &mut Rng, f: impl Fn(A) -> R + Send + Sync + 'static) -> Case {
    let a = A::arb(r);
    let args = vec![a.word()];
    Case { name, args: args.clone(), text: None, run: Box::new(move || call(name, &args, || f(a)).map(|v| v.bits())) }
}
fn f2<A: Arb, B: Arb, R: Bits + 'static>(name: &'static str, r: &mut Rng, f: impl Fn(A, B) -> R + Send + Sync + 'static) -> Case {
    let (a, mut b) = (A::arb(r), B::arb(r));
    // operands which are (almost) the same
    if r.one_in(10) {
        b = B::of(a.word().wrapping_add(r.pick(&[0, 0, 1, u64::MAX])));
    }
    let args = vec![a.word(), b.word()];
    Case { name, args: args.clone(), text: None, run: Box::new(move || call(name, &args, || f(a, b)).map(|v| v.bits())) }
}
/// small arguments: calendar fields
fn fields<A: Arb + TryFrom<i64>, R: Bits + 'static>(name: &'static str, r: &mut Rng, lo: [i64; 4], hi: [i64; 4], f: impl Fn([A; 4]) -> R + Send + Sync + 'static) -> Case {
    let mut a = [A::arb(r); 4];
    for k in 0..4 {
        if !r.one_in(10) {
            if let Ok(v) = A::try_from(r.range(lo[k], hi[k])) {
                a[k] = v
            }
        }
    }
    let args: Vec<u64> = a.iter().map(|x| x.word()).collect();
    Case { name, args: args.clone(), text: None, run: Box::new(move || call(name, &args, || f(a)).map(|v| v.bits())) }
}
/// functions with a text destination
fn dst<A: Arb, U: Copy + Default + Send + Sync + 'static>(name: &'static str, r: &mut Rng, f: impl Fn(A, *mut U) -> i32 + Send + Sync + 'static) -> Case {
    let a = A::arb(r);
    let args = vec![a.word()];
    Case {
        name,
        args: args.clone(),
        text: None,
        run: Box::new(move || {
            let mut b = vec![U::default(); 1100];
            let p = b.as_mut_ptr();
            call(name, &args, || f(a, p)).map(|v| content(&b, v))
        }),
    }
}
fn content<U: Copy>(b: &[U], ret: i32) -> Vec<u8> {
    let mut v = ret.to_le_bytes().to_vec();
    v.extend_from_slice(unsafe { std::slice::from_raw_parts(b.as_ptr() as *const u8, std::mem::size_of_val(b)) });
    v
}
fn split<T: Arb + Default>(name: &'static str, r: &mut Rng, n: usize, f: impl Fn(i64, *mut T) -> i16 + Send + Sync + 'static) -> Case {
    let a = if r.coin() { r.i64() } else { r.range(-4_000_000_000, 8_000_000_000) * 1_000_000_000 + r.range(0, 999_999_999) };
    let args = vec![a as u64];
    Case {
        name,
        args: args.clone(),
        text: None,
        run: Box::new(move || {
            let mut b = vec![T::default(); n];
            let p = b.as_mut_ptr();
            call(name, &args, || f(a, p)).map(|v| content(&b, v as i32))
        }),
    }
}

fn str8(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    let mut v: Vec<u8> = r.text_n(n).into_iter().collect::<String>().into_bytes();
    // ill-formed
    if n > 0 && r.one_in(12) {
        let k = r.below(v.len());
        v[k] = 1 + r.below(255) as u8;
    }
    v.retain(|c| *c != 0);
    v.push(0);
    v
}
fn str16(r: &mut Rng, max: usize) -> Vec<u16> {
    let n = r.below(max + 1);
    let mut v: Vec<u16> = r.text_n(n).into_iter().collect::<String>().encode_utf16().collect();
    // an unpaired surrogate
    if n > 0 && r.one_in(12) {
        let k = r.below(v.len());
        v[k] = 0xd800 + r.below(0x800) as u16;
    }
    v.retain(|c| *c != 0);
    v.push(0);
    v
}
fn numeral(r: &mut Rng) -> Vec<u8> {
    let mut s = match r.below(8) {
        0 => format!("{}", r.int()),
        1 => format!("16#{:X}", r.u64()),
        2 => format!("2#{:b}", r.u32()),
        3 => format!("8#{:o}", r.u32()),
        4 => format!("{}", r.f64()),
        5 => format!("{:e}", r.f64()),
        6 => format!("{:.1$E}", r.f64(), r.below(20)),
        _ => String::from_utf8_lossy(&str8(r, 6)).replace('\0', ""),
    };
    // other notations of the same or almost the same number
    if r.one_in(3) {
        match r.below(6) {
            0 => s.insert(0, '+'),
            1 => s.insert_str(0, "000"),
            2 => s = s.to_ascii_uppercase(),
            3 => s.push_str(".0"),
            4 => s = s.replace('#', "x").replace("16x", "0x").replace("2x", "0b"),
            _ => {
                let at = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).nth(r.below(4)).unwrap_or(0);
                s.insert(at, r.pick(&[' ', '_', '-', ',', '.', 'e']));
            }
        }
    }
    if long() && r.one_in(8) {
        let (n, c) = (r.below(20_000 * longer()), r.pick(&["0", "0.", "9", "1"]));
        s.insert_str(0, &c.repeat(n / c.len()));
    }
    s.push('\0');
    s.into_bytes()
}
fn text1<U: Copy + Send + Sync + 'static, R: Bits + 'static>(name: &'static str, a: Vec<U>, f: impl Fn(*const U) -> R + Send + Sync + 'static) -> Case {
    let text = Some(raw(&a));
    Case { name, args: vec![], text, run: Box::new(move || call(name, &[], || f(a.as_ptr())).map(|v| v.bits())) }
}
fn raw<U>(a: &[U]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(a.as_ptr() as *const u8, std::mem::size_of_val(a)) }.to_vec()
}
fn texts<U: Copy + Default + Send + Sync + 'static>(
    name: &'static str,
    a: Vec<Vec<U>>,
    n: i32,
    p: i32,
    f: impl Fn(&[*const U], i32, i32, *mut U) -> i32 + Send + Sync + 'static,
) -> Case {
    let text = Some(a.iter().flat_map(|x| raw(x)).collect());
    let args = vec![n as u64, p as u64];
    let len = a.iter().map(|x| x.len()).sum::<usize>() + 8;
    Case {
        name,
        args: args.clone(),
        text,
        run: Box::new(move || {
            let ps: Vec<*const U> = a.iter().map(|x| x.as_ptr()).collect();
            let mut d = vec![U::default(); len];
            let dp = d.as_mut_ptr();
            call(name, &args, || f(&ps, n, p, dp)).map(|v| content(&d, v))
        }),
    }
}
fn slice<T: Arb + PartialOrd, R: Bits + 'static>(name: &'static str, r: &mut Rng, f: impl Fn(u32, *const T) -> R + Send + Sync + 'static) -> Case {
    let n = match r.below(12) {
        0 if long() => r.pick(&[3000, 20_000]) * longer(),
        0 => 7 + r.below(60),
        1 if r.one_in(6) => r.pick(&[127, 128, 129, 255, 256, 257, 600, 1025]),
        _ => 1 + r.below(6),
    };
    let mut v: Vec<T> = (0..n).map(|_| T::arb(r)).collect();
    if r.one_in(6) {
        let k = r.below(n);
        v = vec![v[k]; n];
    }
    if r.one_in(5) {
        let up = r.coin();
        v.sort_by(|a, b| if up { a.partial_cmp(b) } else { b.partial_cmp(a) }.unwrap_or(std::cmp::Ordering::Equal));
    }
    let args: Vec<u64> = v.iter().map(|x| x.word()).collect();
    Case { name, args: args.clone(), text: None, run: Box::new(move || call(name, &args, || f(v.len() as u32, v.as_ptr())).map(|v| v.bits())) }
}

thread_local! {
    /// texts and lists of operands of the next rounds are long ones at times
    pub static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// how many times as long
    pub static TIMES: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
}
fn long() -> bool {
    LONG.with(|l| l.get())
}
fn longer() -> usize {
    TIMES.with(|l| l.get())
}
/// longest text: usually short, at times longer than any buffer of fixed size
fn size(r: &mut Rng) -> usize {
    if long() && r.one_in(3) {
        return r.pick(&[1000, 3000, 10_000, 20_000]) * longer();
    }
    match r.below(20) {
        0..=3 => 40,
        4 | 5 => 100,
        6 => r.pick(&[255, 256, 300, 513]),
        7 if r.one_in(4) => r.pick(&[1025, 2049, 4097]),
        _ => 12,
    }
}
/// b becomes a text which occurs (almost) in a
fn related<U: Copy + PartialEq + Default>(r: &mut Rng, a: &[U], b: &mut Vec<U>) {
    let n = a.len() - 1;
    let mut t = match r.below(8) {
        0 => a[..n].to_vec(),
        1 => {
            let mut t = a[..n].to_vec();
            if n > 1 {
                t.swap(0, n - 1);
            }
            t
        }
        2 => a[..r.below(n + 1)].to_vec(),
        3 => a[r.below(n + 1)..n].to_vec(),
        4 => {
            let k = r.below(n + 1);
            a[k..k + r.below(n - k + 1)].to_vec()
        }
        _ => return,
    };
    t.push(U::default());
    *b = t;
}

macro_rules! string_cases {
    ($v:ident, $r:ident, $gen:ident, $s:ident) => { paste! { {
        let m = size($r);
        let (a, mut b) = ($gen($r, m), $gen($r, 4));
        related($r, &a, &mut b);
        let la = a.len() as i64;
        let (mut p, mut n) = ($r.range(0, la + 1) as i32, $r.range(0, la) as i32);
        if long() && $r.coin() {
            // within the text, whatever its characters are
            p = 1 + $r.range(0, la / 4) as i32;
            n = $r.range(0, la / 4 - p as i64 / 2) as i32 / 2;
        }
        $v.push(text1(stringify!([<LEN__ $s>]), a.clone(), |a| unsafe { [<LEN__ $s>](a) }));
        let ab = vec![a.clone(), b.clone()];
        $v.push(texts(stringify!([<FIND__ $s>]), ab.clone(), 0, 0, |t, _, _, _| unsafe { [<FIND__ $s>](t[0], t[1]) }));
        $v.push(texts(stringify!([<LEFT_EXT__ $s>]), vec![a.clone()], n, 0, |t, n, _, d| unsafe { [<LEFT_EXT__ $s>](t[0], n, d) }));
        $v.push(texts(stringify!([<RIGHT_EXT__ $s>]), vec![a.clone()], n, 0, |t, n, _, d| unsafe { [<RIGHT_EXT__ $s>](t[0], n, d) }));
        $v.push(texts(stringify!([<MID_EXT__ $s>]), vec![a.clone()], n, p, |t, n, p, d| unsafe { [<MID_EXT__ $s>](t[0], n, p, d) }));
        $v.push(texts(stringify!([<INSERT_EXT__ $s>]), ab.clone(), 0, p, |t, _, p, d| unsafe { [<INSERT_EXT__ $s>](t[0], t[1], p, d) }));
        $v.push(texts(stringify!([<DELETE_EXT__ $s>]), vec![a.clone()], n, p, |t, n, p, d| unsafe { [<DELETE_EXT__ $s>](t[0], n, p, d) }));
        $v.push(texts(stringify!([<REPLACE_EXT__ $s>]), ab.clone(), n, p, |t, n, p, d| unsafe { [<REPLACE_EXT__ $s>](t[0], t[1], n, p, d) }));
        let m = if $r.one_in(10) { size($r).min(120) } else { 5 };
        let k = if long() && $r.one_in(8) { 2000 * longer() } else if $r.one_in(10) { 5 + $r.below(60) } else { 2 + $r.below(3) };
        let mut many: Vec<_> = (0..k).map(|_| $gen($r, m)).collect();
        if $r.one_in(5) {
            let x = many[$r.below(k)].clone();
            many[0] = x.clone();
            many[1] = x;
        }
        if k > 60 {
            // a chain whose relation holds
            match $r.below(4) {
                0 => many.sort(),
                1 => many.sort_by(|a, b| b.cmp(a)),
                2 => many = vec![many[0].clone(); k],
                _ => {}
            }
        }
        $v.push(texts(stringify!([<CONCAT_EXT__ $s>]), many.clone(), 0, 0, |t, _, _, d| unsafe { [<CONCAT_EXT__ $s>](d, t.len() as i32, t.as_ptr()) }));
        $v.push(texts(stringify!([<CONCAT__ $s>]), many.clone(), 0, 0, |t, _, _, d| unsafe { [<CONCAT__ $s>](d, t.len() as i32, t.as_ptr()); 0 }));
        $v.push(texts(stringify!([<GT__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<GT__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<GE__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<GE__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<EQ__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<EQ__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<LE__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<LE__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<LT__ $s>]), many, 0, 0, |t, _, _, _| unsafe { [<LT__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<NE__ $s>]), ab, 0, 0, |t, _, _, _| unsafe { [<NE__ $s>](t[0], t[1]) as i32 }));
    } } };
}
macro_rules! fns1 { ($v:ident, $r:ident, $($n:ident $t:ty),* $(,)?) => { $( $v.push(f1::<$t, _>(stringify!($n), $r, |a| unsafe { $n(a) })); )* } }
macro_rules! fns2 { ($v:ident, $r:ident, $($n:ident $t:ty, $u:ty);* $(;)?) => { $( $v.push(f2::<$t, $u, _>(stringify!($n), $r, |a, b| unsafe { $n(a, b) })); )* } }
macro_rules! dsts { ($v:ident, $r:ident, $($n:ident $t:ty, $u:ty);* $(;)?) => { $( $v.push(dst::<$t, $u>(stringify!($n), $r, |a, d| unsafe { $n(a, d) })); )* } }
macro_rules! muldivs { ($v:ident, $r:ident, $($s:ident $t:ty),*) => { paste! { $(
    fns2!($v, $r, [<MUL__TIME__ $s>] i64, $t; [<MUL_TIME__ $s>] i64, $t; [<MUL_LTIME__ $s>] i64, $t; [<DIV__TIME__ $s>] i64, $t; [<DIV_TIME__ $s>] i64, $t; [<DIV_LTIME__ $s>] i64, $t);
)* } } }
macro_rules! floats { ($v:ident, $r:ident, $($n:ident),*) => { paste! { $( fns1!($v, $r, [<$n __REAL>] f32, [<$n __LREAL>] f64); )* } } }
macro_rules! dparts { ($v:ident, $r:ident, $($s:ident $t:ty),*) => { paste! { $(
    $v.push(fields::<$t, _>(stringify!([<CONCAT_DATE__ $s>]), $r, [1700, 1, 1, 0], [2250, 12, 28, 0], |a| unsafe { [<CONCAT_DATE__ $s>](a[0], a[1], a[2]) }));
    $v.push(split::<$t>(stringify!([<SPLIT_DATE__ $s>]), $r, 3, |a, p| unsafe { [<SPLIT_DATE__ $s>](a, p, p.add(1), p.add(2)) }));
    $v.push(split::<$t>(stringify!([<SPLIT_TOD__ $s>]), $r, 4, |a, p| unsafe { [<SPLIT_TOD__ $s>](a, p, p.add(1), p.add(2), p.add(3)) }));
    $v.push(split::<$t>(stringify!([<SPLIT_DT__ $s>]), $r, 7, |a, p| unsafe { [<SPLIT_DT__ $s>](a, p, p.add(1), p.add(2), p.add(3), p.add(4), p.add(5), p.add(6)) }));
)* } } }
macro_rules! tparts { ($v:ident, $r:ident, $($s:ident $t:ty),*) => { paste! { $(
    $v.push(fields::<$t, _>(stringify!([<CONCAT_TOD__ $s>]), $r, [0, 0, 0, 0], [23, 59, 59, 999], |a| unsafe { [<CONCAT_TOD__ $s>](a[0], a[1], a[2], a[3]) }));
)* } } }
macro_rules! shifts { ($v:ident, $r:ident, $($s:ident $t:ty),*) => { paste! { $(
    fns2!($v, $r, [<SHL__ $s>] $t, u32; [<SHR__ $s>] $t, u32; [<ROL__ $s>] $t, u32; [<ROR__ $s>] $t, u32);
)* } } }
macro_rules! ends { ($v:ident, $r:ident, $($s:ident $t:ty),*) => { paste! { $(
    fns1!($v, $r, [<TO_BIG_ENDIAN__ $s>] $t, [<TO_LITTLE_ENDIAN__ $s>] $t, [<FROM_BIG_ENDIAN__ $s>] $t, [<FROM_LITTLE_ENDIAN__ $s>] $t);
)* } } }
macro_rules! orders { ($v:ident, $r:ident, $($s:ident $t:ty),*) => { paste! { $(
    $v.push(slice::<$t, _>(stringify!([<MAX__ $s>]), $r, |n, p| unsafe { [<MAX__ $s>](n, p) }));
    $v.push(slice::<$t, _>(stringify!([<MIN__ $s>]), $r, |n, p| unsafe { [<MIN__ $s>](n, p) }));
    $v.push(slice::<$t, _>(stringify!([<LIMIT__ $s>]), $r, |n, p| unsafe { let (a, b, c) = (*p, *p.add(n as usize / 2), *p.add(n as usize - 1)); if a <= c { [<LIMIT__ $s>](a, b, c) } else { [<LIMIT__ $s>](c, b, a) } }));
)* } } }

macro_rules! valid_cases {
    ($v:ident, $s:ident, $t:ty, $n:expr) => { paste! { {
        let n = $n as i32;
        let text = |from: usize| -> Vec<$t> { (0..$n).map(|k| 97 + ((k * k / 7 + from) % 26) as $t).chain([0]).collect() };
        let a = text(0);
        let b: Vec<$t> = vec![120, 121, 0];
        let mut needle = a[$n / 2..].to_vec();
        needle.truncate(1000.min($n / 4));
        needle.push(0);
        $v.push(text1(stringify!([<LEN__ $s>]), a.clone(), |a| unsafe { [<LEN__ $s>](a) }));
        $v.push(texts(stringify!([<FIND__ $s>]), vec![a.clone(), needle], 0, 0, |t, _, _, _| unsafe { [<FIND__ $s>](t[0], t[1]) }));
        $v.push(texts(stringify!([<LEFT_EXT__ $s>]), vec![a.clone()], n - n / 5, 0, |t, n, _, d| unsafe { [<LEFT_EXT__ $s>](t[0], n, d) }));
        $v.push(texts(stringify!([<RIGHT_EXT__ $s>]), vec![a.clone()], n - n / 5, 0, |t, n, _, d| unsafe { [<RIGHT_EXT__ $s>](t[0], n, d) }));
        $v.push(texts(stringify!([<MID_EXT__ $s>]), vec![a.clone()], n - n / 5, n / 8 + 1, |t, n, p, d| unsafe { [<MID_EXT__ $s>](t[0], n, p, d) }));
        $v.push(texts(stringify!([<INSERT_EXT__ $s>]), vec![a.clone(), b.clone()], 0, n / 2, |t, _, p, d| unsafe { [<INSERT_EXT__ $s>](t[0], t[1], p, d) }));
        $v.push(texts(stringify!([<DELETE_EXT__ $s>]), vec![a.clone()], n / 5, n / 2 + 1, |t, n, p, d| unsafe { [<DELETE_EXT__ $s>](t[0], n, p, d) }));
        $v.push(texts(stringify!([<REPLACE_EXT__ $s>]), vec![a.clone(), b], n / 5, n / 2 + 1, |t, n, p, d| unsafe { [<REPLACE_EXT__ $s>](t[0], t[1], n, p, d) }));
        let many = vec![a.clone(), a.clone(), a];
        $v.push(texts(stringify!([<CONCAT_EXT__ $s>]), many.clone(), 0, 0, |t, _, _, d| unsafe { [<CONCAT_EXT__ $s>](d, t.len() as i32, t.as_ptr()) }));
        $v.push(texts(stringify!([<CONCAT__ $s>]), many.clone(), 0, 0, |t, _, _, d| unsafe { [<CONCAT__ $s>](d, t.len() as i32, t.as_ptr()); 0 }));
        $v.push(texts(stringify!([<GE__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<GE__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<EQ__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<EQ__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<LE__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<LE__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        $v.push(texts(stringify!([<NE__ $s>]), many.clone(), 0, 0, |t, _, _, _| unsafe { [<NE__ $s>](t[0], t[1]) as i32 }));
        // differing in the end only
        let mut falling = many;
        falling[1][$n - 2] -= 1;
        falling.truncate(2);
        $v.push(texts(stringify!([<GT__ $s>]), falling.clone(), 0, 0, |t, _, _, _| unsafe { [<GT__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
        falling.swap(0, 1);
        $v.push(texts(stringify!([<LT__ $s>]), falling, 0, 0, |t, _, _, _| unsafe { [<LT__ $s>](t.len() as i32, t.as_ptr()) as i32 }));
    } } };
}
/// Calls of the functions with texts, of n characters and valid.
pub fn valid_texts(n: usize) -> Vec<Case> {
    let mut v = vec![];
    valid_cases!(v, STRING, u8, n);
    valid_cases!(v, WSTRING, u16, n);
    let zeros = || -> Vec<u8> { std::iter::repeat(b'0').take(n).chain([b'7', 0]).collect() };
    v.push(text1("STRING_TO_LINT", zeros(), |a| unsafe { STRING_TO_LINT(a) }));
    v.push(text1("STRING_TO_DINT", zeros(), |a| unsafe { STRING_TO_DINT(a) }));
    v.push(text1("STRING_TO_LREAL", zeros(), |a| unsafe { STRING_TO_LREAL(a) }));
    v.push(text1("STRING_TO_REAL", zeros(), |a| unsafe { STRING_TO_REAL(a) }));
    v
}

/// One case of every stateless function.
pub fn round(r: &mut Rng) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    string_cases!(v, r, str8, STRING);
    string_cases!(v, r, str16, WSTRING);
    let m = size(r);
    let (a, b) = (str8(r, m.max(30)), str16(r, m.max(30)));
    v.push(texts("STRING_TO_WSTRING_EXT", vec![a.iter().map(|c| *c as u16).collect()], 0, 0, |t, _, _, d: *mut u16| unsafe {
        let mut s = vec![];
        let mut p = t[0];
        while *p != 0 {
            s.push(*p as u8);
            p = p.add(1);
        }
        s.push(0);
        STRING_TO_WSTRING_EXT(s.as_ptr(), d)
    }));
    let text = Some(raw(&b));
    v.push(Case {
        name: "WSTRING_TO_STRING_EXT",
        args: vec![],
        text,
        run: Box::new(move || {
            let mut d = vec![0u8; b.len() * 4 + 4];
            let p = d.as_mut_ptr();
            call("WSTRING_TO_STRING_EXT", &[], || unsafe { WSTRING_TO_STRING_EXT(b.as_ptr(), p) }).map(|v| content(&d, v))
        }),
    });
    v.push(text1("STRING_TO_LINT", numeral(r), |a| unsafe { STRING_TO_LINT(a) }));
    v.push(text1("STRING_TO_DINT", numeral(r), |a| unsafe { STRING_TO_DINT(a) }));
    v.push(text1("STRING_TO_LREAL", numeral(r), |a| unsafe { STRING_TO_LREAL(a) }));
    v.push(text1("STRING_TO_REAL", numeral(r), |a| unsafe { STRING_TO_REAL(a) }));
    fns1!(v, r, WCHAR_TO_CHAR u16, CHAR_TO_WCHAR u8, DATE_AND_TIME_TO_DATE i64, DATE_AND_TIME_TO_TIME_OF_DAY i64, DAY_OF_WEEK i64, LWORD_TO_LREAL u64, DWORD_TO_REAL u32,
        LREAL_TO_LWORD f64, REAL_TO_DWORD f32, IS_VALID__REAL f32, IS_VALID__LREAL f64, IS_VALID_BCD__BYTE u8, IS_VALID_BCD__WORD u16, IS_VALID_BCD__DWORD u32, IS_VALID_BCD__LWORD u64);
    dsts!(v, r, BYTE_TO_STRING_EXT u8, u8; LWORD_TO_STRING_EXT u64, u8; LINT_TO_STRING_EXT i64, u8; LREAL_TO_STRING_EXT f64, u8; REAL_TO_STRING_EXT f64, u8;
        TIME_TO_STRING_EXT i64, u8; DT_TO_STRING_EXT i64, u8; DATE_TO_STRING_EXT i64, u8; TOD_TO_STRING_EXT i64, u8);
    fns2!(v, r, CONCAT_DATE_TOD i64, i64; ADD_TIME i64, i64; ADD_TOD_TIME i64, i64; ADD_DT_TIME i64, i64; SUB_TIME i64, i64; SUB_DATE_DATE i64, i64; SUB_TOD_TIME i64, i64;
        SUB_TOD_TOD i64, i64; SUB_DT_TIME i64, i64; SUB_DT_DT i64, i64; ATAN2__REAL f32, f32; ATAN2__LREAL f64, f64; EXPT__REAL__DINT f32, i32; EXPT__LREAL__DINT f64, i32;
        EXPT__REAL__REAL f32, f32; EXPT__REAL__LREAL f32, f64; EXPT__LREAL__REAL f64, f32; EXPT__LREAL__LREAL f64, f64);
    muldivs!(v, r, SINT i8, INT i16, DINT i32, LINT i64, USINT u8, UINT u16, UDINT u32, ULINT u64, REAL f32, LREAL f64);
    floats!(v, r, SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN, ROUND);
    dparts!(v, r, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);
    tparts!(v, r, SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);
    shifts!(v, r, BYTE u8, WORD u16, DWORD u32, LWORD u64);
    ends!(v, r, INT i16, DINT i32, LINT i64, UINT u16, UDINT u32, ULINT u64, WORD u16, DWORD u32, LWORD u64, WCHAR u16, DATE i64, TIME_OF_DAY i64, DATE_AND_TIME i64, REAL f32, LREAL f64);
    orders!(v, r, BYTE u8, CHAR u8, WORD u16, WCHAR u16, DWORD u32, LWORD u64, SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64, DATE i64, DATE_AND_TIME i64,
        TIME i64, TIME_OF_DAY i64, REAL f32, LREAL f64);
    v
}

fn show_out(o: &Out) -> String {
    match o {
        Err(()) => "a rejection (panic)".into(),
        Ok(v) => {
            let mut e = v.len();
            while e > 8 && v[e - 1] == 0 {
                e -= 1;
            }
            format!("{} (bytes, zeros at the end omitted)", v[..e].iter().map(|b| format!("{b:02x}")).collect::<String>())
        }
    }
}

fn session(cx: &mut Ctx, rounds: usize, threads: usize, steps: usize) {
    let mut cases: Vec<Case> = vec![];
    for _ in 0..rounds {
        cases.extend(round(&mut cx.rng));
    }
    // the result of the first call
    let want: Vec<Out> = cases.iter().map(|c| (c.run)()).collect();
    // again, after other calls
    let mut order: Vec<usize> = (0..cases.len()).collect();
    for pass in 0..2 {
        cx.rng.shuffle(&mut order);
        for &k in &order {
            let got = (cases[k].run)();
            cx.eval(hashes(&[cx.chunk as u64, k as u64, pass, 1, want[k].is_ok() as u64]), true);
            cx.ev("repeated after other calls");
            if got != want[k] {
                cx.violation(cases[k].name, || format!("{}: {} the first time, {} after other calls", cases[k].describe(), show_out(&want[k]), show_out(&got)));
            }
        }
    }
    // and at the same time as other calls
    let bar = Barrier::new(threads);
    let found: Mutex<Vec<(usize, Out, usize)>> = Mutex::new(vec![]);
    let active = AtomicUsize::new(0);
    let together = AtomicU64::new(0);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.next()).collect();
    // the threads concentrate on a part of the functions: more conflicts
    let focus: Vec<usize> = if cx.rng.coin() {
        let n = cases.len() / rounds;
        let f = cx.rng.below(n);
        let w = 1 + cx.rng.below(24);
        (0..cases.len()).filter(|k| (k % n + n - f) % n < w).collect()
    } else {
        (0..cases.len()).collect()
    };
    std::thread::scope(|s| {
        for seed in &seeds {
            let (cases, want, bar, found, active, together, focus) = (&cases, &want, &bar, &found, &active, &together, &focus);
            s.spawn(move || {
                crate::call::install_alt_stack();
                let mut r = Rng::new(*seed);
                let mut n = 0;
                let mut miss = vec![];
                bar.wait();
                for _ in 0..steps {
                    let k = focus[r.below(focus.len())];
                    if active.fetch_add(1, Relaxed) > 0 {
                        n += 1;
                    }
                    let got = (cases[k].run)();
                    active.fetch_sub(1, Relaxed);
                    if got != want[k] {
                        miss.push((k, got, 0));
                        break;
                    }
                }
                together.fetch_add(n, Relaxed);
                crate::call::flush_counters();
                bar.wait();
                if !miss.is_empty() {
                    found.lock().unwrap().extend(miss);
                }
            });
        }
    });
    let t = together.into_inner();
    if t > 0 {
        cx.ev("overlapping calls");
    }
    for i in 0..(steps * threads) as u64 {
        cx.eval(hashes(&[cx.chunk as u64, i, 2]), i < t);
    }
    for (k, got, _) in found.into_inner().unwrap() {
        let want = &want[k];
        cx.violation(cases[k].name, || format!("{}: {} when called alone, {} while {} other threads call functions", cases[k].describe(), show_out(want), show_out(&got), threads - 1));
    }
    for (k, w) in want.iter().enumerate() {
        cx.ev(if w.is_ok() { cases[k].name } else { "rejected calls" });
    }
    let k = cx.rng.below(cases.len());
    cx.sample(|| format!("{} = {} in all {} threads", cases[k].describe(), show_out(&want[k]), threads));
}

/// The same calls with other clocks, environments, working directories and stacks.
fn surroundings(cx: &mut Ctx) {
    const S: i128 = 1_000_000_000;
    let home = std::env::current_dir();
    for k in 0..cx.n(2).max(1) {
        if cx.stop() {
            break;
        }
        let mut cases: Vec<Case> = vec![];
        for _ in 0..3 {
            cases.extend(round(&mut cx.rng));
        }
        let want: Vec<Out> = cases.iter().map(|c| (c.run)()).collect();
        let judge = |cx: &mut Ctx, what: &str, ev: &'static str| {
            for (n, c) in cases.iter().enumerate() {
                let got = (c.run)();
                cx.ev(ev);
                cx.eval(hashes(&[cx.chunk as u64, n as u64, k as u64, hash_str(what), 5]), true);
                if got != want[n] {
                    cx.violation(c.name, || format!("{}: {} at first, {} {what}", c.describe(), show_out(&want[n]), show_out(&got)));
                }
            }
        };
        // 1970, the end of 32 bit time, far future and past, leap day, midnight, at random
        for t in [0, 1, (1i128 << 31) - 1, 1 << 31, 1 << 32, -1, -2_208_988_800, 4_102_444_800, 1_709_164_800, 951_782_400, cx.rng.range(-3_000_000_000, 9_000_000_000) as i128] {
            clock::on(cx.rng.range(0, 1 << 50) as i128, t * S + if cx.rng.coin() { 0 } else { 999_999_999 });
            judge(cx, &format!("when the clock is {t} s after 1970"), "with another clock");
            clock::off();
        }
        // now is what the arguments say
        for (n, c) in cases.iter().enumerate() {
            let Some(&a) = c.args.first() else { continue };
            let shift = cx.rng.range(-7_200, 7_200) as i128 * S;
            clock::on(1 << 45, a as i64 as i128 + if cx.rng.coin() { 0 } else { shift });
            let got = (c.run)();
            clock::off();
            cx.ev("when the clock shows the argument");
            cx.eval(hashes(&[cx.chunk as u64, n as u64, k as u64, 7]), true);
            if got != want[n] {
                cx.violation(c.name, || format!("{}: {} at first, {} when this is the time of the clock", c.describe(), show_out(&want[n]), show_out(&got)));
            }
        }
        for m in 1..=crate::env::ANSWERS.len() {
            crate::env::answer(m);
            let a = crate::env::ANSWERS[m - 1].trim_end_matches('\0');
            judge(cx, &format!("when environment variables are {a:?}"), "with another environment");
            crate::env::answer(0);
        }
        // as a program in a control: no home, nothing in the current directory
        if std::env::set_current_dir("/dev/shm").or_else(|_| std::env::set_current_dir("/")).is_ok() {
            judge(cx, "in another working directory", "in another directory");
        }
        if let Ok(h) = &home {
            let _ = std::env::set_current_dir(h);
        }
        // in a new thread each, where nothing was called before
        for (n, c) in cases.iter().enumerate().filter(|(n, _)| n % 3 == k % 3) {
            let got = std::thread::scope(|s| {
                s.spawn(|| {
                    crate::call::install_alt_stack();
                    let o = (c.run)();
                    crate::call::flush_counters();
                    o
                })
                .join()
                .unwrap_or(Err(()))
            });
            cx.ev("first call of a thread");
            cx.eval(hashes(&[cx.chunk as u64, n as u64, k as u64, 6]), true);
            if got != want[n] {
                cx.violation(c.name, || format!("{}: {} in one thread, {} as the first call of another one", c.describe(), show_out(&want[n]), show_out(&got)));
            }
        }
    }
}

pub fn c30(o: Opts) -> ! {
    let san = o.profile.contains("san");
    let units = vec![unit("process", if san { 0 } else { 1 }, surroundings), unit("sessions", 12, move |cx| {
        for k in 0..cx.n(if san { 2 } else { 4 }).min(400) {
            if cx.stop() {
                return;
            }
            let threads = if k % 4 == 3 { 8 } else { 2 + k % 3 };
            if san {
                session(cx, 2, 4, 400)
            } else {
                session(cx, 6, threads, 3000)
            }
        }
    })];
    run(
        o,
        units,
        &[
            "repeated after other calls", "overlapping calls", "rejected calls", "LEN__STRING", "REPLACE_EXT__WSTRING", "CONCAT_EXT__STRING", "STRING_TO_LINT", "LREAL_TO_STRING_EXT", "TIME_TO_STRING_EXT",
            "DT_TO_STRING_EXT", "WSTRING_TO_STRING_EXT", "STRING_TO_WSTRING_EXT", "SPLIT_DT__LINT", "CONCAT_DATE__INT", "CONCAT_TOD__USINT", "ADD_TIME", "MUL__TIME__LREAL", "EXPT__LREAL__DINT", "SHL__LWORD",
            "TO_BIG_ENDIAN__LREAL", "MAX__REAL", "LIMIT__TIME", "SIN__LREAL", "ROUND__REAL",
        ],
    )
}
