//! C01 - C06: character strings.
use crate::ffi::*;
use crate::mem::Guard;
use crate::*;
use std::fmt::Debug;

pub trait Unit16or8: Copy + PartialEq + Debug + Ord + Default + Send + Sync + 'static {
    const NAME: &'static str;
    const SIZE: usize;
    fn enc(t: &[char]) -> Vec<Self>;
    fn dec(u: &[Self]) -> Option<Vec<char>>;
    fn bytes(u: &[Self]) -> Vec<u8>;
    fn of_bytes(b: &[u8]) -> Vec<Self>;
    fn random(r: &mut Rng) -> Self;
    fn zero(self) -> bool;
    fn num(self) -> i64;
    fn of(n: i64) -> Option<Self>;
}
impl Unit16or8 for u8 {
    const NAME: &'static str = "STRING";
    const SIZE: usize = 1;
    fn enc(t: &[char]) -> Vec<u8> {
        t.iter().collect::<String>().into_bytes()
    }
    fn dec(u: &[u8]) -> Option<Vec<char>> {
        std::str::from_utf8(u).ok().map(|s| s.chars().collect())
    }
    fn bytes(u: &[u8]) -> Vec<u8> {
        u.to_vec()
    }
    fn of_bytes(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
    fn random(r: &mut Rng) -> u8 {
        match r.below(6) {
            0 => 0x61,
            1 => r.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xc3, 0xe2, 0xf0, 0xf4, 0xf5, 0xff, 0x7f]),
            2 => 0x61 + r.below(3) as u8,
            _ => 1 + r.below(255) as u8,
        }
    }
    fn zero(self) -> bool {
        self == 0
    }
    fn num(self) -> i64 {
        self as i64
    }
    fn of(n: i64) -> Option<Self> {
        u8::try_from(n).ok().filter(|n| *n > 0)
    }
}
impl Unit16or8 for u16 {
    const NAME: &'static str = "WSTRING";
    const SIZE: usize = 2;
    fn enc(t: &[char]) -> Vec<u16> {
        t.iter().collect::<String>().encode_utf16().collect()
    }
    fn dec(u: &[u16]) -> Option<Vec<char>> {
        String::from_utf16(u).ok().map(|s| s.chars().collect())
    }
    fn bytes(u: &[u16]) -> Vec<u8> {
        u.iter().flat_map(|x| x.to_ne_bytes()).collect()
    }
    fn of_bytes(b: &[u8]) -> Vec<u16> {
        b.chunks_exact(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect()
    }
    fn random(r: &mut Rng) -> u16 {
        match r.below(6) {
            0 => 0x61 + r.below(3) as u16,
            1 => r.pick(&[0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xde00, 0xfffd, 0xffff, 0xfeff, 0xe000, 0xff, 0x100]),
            2 => 0xd800 + r.below(0x800) as u16,
            3 => 0x61,
            _ => 1 + r.below(0xffff) as u16,
        }
    }
    fn zero(self) -> bool {
        self == 0
    }
    fn num(self) -> i64 {
        self as i64
    }
    fn of(n: i64) -> Option<Self> {
        u16::try_from(n).ok().filter(|n| *n > 0)
    }
}

type P<U> = *const U;
type M<U> = *mut U;
pub struct Fns<U> {
    pub len: (&'static str, unsafe extern "C-unwind" fn(P<U>) -> i32),
    pub find: (&'static str, unsafe extern "C-unwind" fn(P<U>, P<U>) -> i32),
    pub left: (&'static str, unsafe extern "C-unwind" fn(P<U>, i32, M<U>) -> i32),
    pub right: (&'static str, unsafe extern "C-unwind" fn(P<U>, i32, M<U>) -> i32),
    pub mid: (&'static str, unsafe extern "C-unwind" fn(P<U>, i32, i32, M<U>) -> i32),
    pub insert: (&'static str, unsafe extern "C-unwind" fn(P<U>, P<U>, i32, M<U>) -> i32),
    pub delete: (&'static str, unsafe extern "C-unwind" fn(P<U>, i32, i32, M<U>) -> i32),
    pub replace: (&'static str, unsafe extern "C-unwind" fn(P<U>, P<U>, i32, i32, M<U>) -> i32),
    pub concat: (&'static str, unsafe extern "C-unwind" fn(M<U>, i32, *const P<U>)),
    pub concat_ext: (&'static str, unsafe extern "C-unwind" fn(M<U>, i32, *const P<U>) -> i32),
    pub cmp: [(&'static str, unsafe extern "C-unwind" fn(i32, *const P<U>) -> bool); 5],
    pub ne: (&'static str, unsafe extern "C-unwind" fn(P<U>, P<U>) -> bool),
}
macro_rules! fns {
    ($s:ident) => {
        paste::paste! { Fns {
            len: (stringify!([<LEN__ $s>]), [<LEN__ $s>]),
            find: (stringify!([<FIND__ $s>]), [<FIND__ $s>]),
            left: (stringify!([<LEFT_EXT__ $s>]), [<LEFT_EXT__ $s>]),
            right: (stringify!([<RIGHT_EXT__ $s>]), [<RIGHT_EXT__ $s>]),
            mid: (stringify!([<MID_EXT__ $s>]), [<MID_EXT__ $s>]),
            insert: (stringify!([<INSERT_EXT__ $s>]), [<INSERT_EXT__ $s>]),
            delete: (stringify!([<DELETE_EXT__ $s>]), [<DELETE_EXT__ $s>]),
            replace: (stringify!([<REPLACE_EXT__ $s>]), [<REPLACE_EXT__ $s>]),
            concat: (stringify!([<CONCAT__ $s>]), [<CONCAT__ $s>]),
            concat_ext: (stringify!([<CONCAT_EXT__ $s>]), [<CONCAT_EXT__ $s>]),
            cmp: [
                (stringify!([<GT__ $s>]), [<GT__ $s>]),
                (stringify!([<GE__ $s>]), [<GE__ $s>]),
                (stringify!([<EQ__ $s>]), [<EQ__ $s>]),
                (stringify!([<LE__ $s>]), [<LE__ $s>]),
                (stringify!([<LT__ $s>]), [<LT__ $s>]),
            ],
            ne: (stringify!([<NE__ $s>]), [<NE__ $s>]),
        } }
    };
}
pub fn fns8() -> Fns<u8> {
    fns!(STRING)
}
pub fn fns16() -> Fns<u16> {
    fns!(WSTRING)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Left,
    Right,
    Mid,
    Insert,
    Delete,
    Replace,
    Concat,
    ConcatExt,
}
pub const OPS: [Op; 8] = [Op::Left, Op::Right, Op::Mid, Op::Insert, Op::Delete, Op::Replace, Op::Concat, Op::ConcatExt];

/// The reference: what IEC 61131-3 says about the operation, on characters. None: no such substring.
pub fn model<T: Clone>(op: Op, t: &[Vec<T>], n: i64, p: i64) -> Option<Vec<T>> {
    let a = &t[0];
    let len = a.len() as i64;
    let cut = |from: i64, to: i64| a[from as usize..to as usize].to_vec();
    match op {
        Op::Left => (0..=len).contains(&n).then(|| cut(0, n)),
        Op::Right => (0..=len).contains(&n).then(|| cut(len - n, len)),
        Op::Mid => (n >= 0 && p >= 1 && p <= len && p - 1 + n <= len).then(|| cut(p - 1, p - 1 + n)),
        Op::Insert => (0..=len).contains(&p).then(|| [cut(0, p), t[1].clone(), cut(p, len)].concat()),
        Op::Delete => (n >= 0 && p >= 1 && p <= len && p - 1 + n <= len).then(|| [cut(0, p - 1), cut(p - 1 + n, len)].concat()),
        Op::Replace => (n >= 0 && p >= 1 && p <= len && p - 1 + n <= len).then(|| [cut(0, p - 1), t[1].clone(), cut(p - 1 + n, len)].concat()),
        Op::Concat | Op::ConcatExt => Some(t.concat()),
    }
}

pub struct Bufs {
    src: Vec<Guard>,
    argv: Guard,
    dest: Guard,
    /// the text was not placed on its own, the same variable is passed twice
    alias: [bool; 16],
    /// null pointers for some of the empty texts
    nulls: bool,
}
const BIG: usize = 70_000;
impl Bufs {
    pub fn new() -> Bufs {
        Bufs { src: (0..9).map(|_| Guard::new(BIG * 4 + 8)).collect(), argv: Guard::new(256), dest: Guard::new(BIG * 10), alias: [false; 16], nulls: false }
    }
    /// Places terminated texts in front of guard pages.
    pub fn put<U: Unit16or8>(&mut self, i: usize, t: &[U], r: &mut Rng) -> *const U {
        let mut v = t.to_vec();
        v.push(U::default());
        let c = 1 + r.below(255) as u8;
        self.alias[i] = false;
        self.src[i].put(&v, c)
    }
    pub fn argv<U: Unit16or8>(&mut self, v: &[*const U]) -> *const *const U {
        self.argv.put(v, 0x77)
    }
}

pub struct Outcome<U> {
    /// units in front of the terminator; Err: rejected
    pub result: Result<Vec<U>, ()>,
    pub terminated: bool,
    /// what the function returned
    pub status: i32,
}

/// Executes one operation; the destination has room for `room` units (incl. terminator).
#[allow(clippy::too_many_arguments)]
pub fn exec<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>, b: &mut Bufs, op: Op, t: &[Vec<U>], n: i64, p: i64, room: usize) -> Outcome<U> {
    let mut ptrs: Vec<*const U> = vec![];
    for (i, x) in t.iter().enumerate() {
        // the same string variable may be passed several times
        if i > 0 && t[i] == t[i - 1] && cx.rng.coin() {
            let q = ptrs[i - 1];
            ptrs.push(q);
            b.alias[i] = true;
        } else if b.nulls && x.is_empty() && !cx.rng.one_in(4) {
            ptrs.push(std::ptr::null());
            b.alias[i] = true;
        } else {
            ptrs.push(b.put(i, x, &mut cx.rng));
        }
    }
    // stale content: text without terminator, zeros, or pattern
    let style = cx.rng.below(4);
    let k = cx.rng.next();
    let d = b.dest.dest(
        room * U::SIZE,
        |i| match style {
            0 => b'Z',
            1 => 0,
            2 => 0xff,
            _ => (mix(k ^ i as u64) as u8).max(1),
        },
        (k >> 32) as u8 | 1,
    ) as *mut U;
    let argv = b.argv(&ptrs);
    let (n32, p32) = (n as i32, p as i32);
    let bytes: Vec<Vec<u8>> = t.iter().map(|x| U::bytes(x)).collect();
    let refs: Vec<&[u8]> = bytes.iter().map(|x| &x[..]).collect();
    set_bufs(&refs);
    let a = [n as u64, p as u64, t.len() as u64];
    let res = unsafe {
        match op {
            Op::Left => call(f.left.0, &a[..1], || f.left.1(ptrs[0], n32, d)),
            Op::Right => call(f.right.0, &a[..1], || f.right.1(ptrs[0], n32, d)),
            Op::Mid => call(f.mid.0, &a[..2], || f.mid.1(ptrs[0], n32, p32, d)),
            Op::Insert => call(f.insert.0, &a[1..2], || f.insert.1(ptrs[0], ptrs[1], p32, d)),
            Op::Delete => call(f.delete.0, &a[..2], || f.delete.1(ptrs[0], n32, p32, d)),
            Op::Replace => call(f.replace.0, &a[..2], || f.replace.1(ptrs[0], ptrs[1], n32, p32, d)),
            Op::Concat => call(f.concat.0, &a[2..], || f.concat.1(d, t.len() as i32, argv)).map(|_| 0),
            Op::ConcatExt => call(f.concat_ext.0, &a[2..], || f.concat_ext.1(d, t.len() as i32, argv)),
        }
    };
    let out = U::of_bytes(b.dest.bytes());
    let end = out.iter().position(|u| u.zero());
    Outcome { status: res.unwrap_or(0), result: res.map(|_| out[..end.unwrap_or(out.len())].to_vec()), terminated: end.is_some() }
}

/// Memory monitor: sources, argument vector and surroundings are unchanged.
pub fn memory_ok<U: Unit16or8>(b: &Bufs, t: &[Vec<U>]) -> Result<(), String> {
    if !b.dest.canary_ok() {
        return Err("wrote in front of the destination".into());
    }
    for (i, x) in t.iter().enumerate() {
        if b.alias[i] {
            continue;
        }
        let g = &b.src[i];
        let want = U::bytes(x);
        {
            if g.bytes().len() != want.len() + U::SIZE || g.bytes()[..want.len()] != want[..] || g.bytes()[want.len()..].iter().any(|b| *b != 0) {
                return Err(format!("source {} was modified", i + 1));
            }
            if !g.canary_ok() {
                return Err(format!("wrote in front of source {}", i + 1));
            }
        }
    }
    if !b.argv.canary_ok() {
        return Err("wrote in front of the argument vector".into());
    }
    Ok(())
}

fn text_edge(r: &mut Rng) -> Vec<char> {
    if r.one_in(20) {
        let d = dict();
        if !d.texts.is_empty() {
            return d.texts[r.below(d.texts.len())].chars().filter(|c| *c != '\0').collect();
        }
    }
    if r.one_in(1500) {
        let n = r.pick(&[32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 69000]);
        return r.text_n(n);
    }
    r.text()
}
pub fn text(r: &mut Rng) -> Vec<char> {
    text_edge(r)
}

/// A position biased to the borders of 0..=n
fn within(r: &mut Rng, n: i64) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => n,
        2 => 1.min(n),
        3 => (n - 1).max(0),
        _ => r.range(0, n),
    }
}

pub struct Case {
    op: Op,
    t: Vec<Vec<char>>,
    n: i64,
    p: i64,
}
pub fn valid_case(r: &mut Rng) -> Case {
    let op = r.pick(&OPS);
    let mut t = vec![text(r)];
    let (mut n, mut p) = (0, 0);
    let len = t[0].len() as i64;
    match op {
        Op::Left | Op::Right => n = within(r, len),
        Op::Mid | Op::Delete | Op::Replace => {
            if len == 0 {
                let c = r.ch(2);
                t[0].push(c);
            }
            let len = t[0].len() as i64;
            p = 1 + within(r, len - 1);
            n = within(r, len - p + 1);
        }
        Op::Insert => p = within(r, len),
        _ => {
            let m = if r.one_in(8) { 8 } else { 4 };
            let k = r.below(m);
            for _ in 0..k {
                let x = if r.one_in(5) { t.last().unwrap().clone() } else { text(r) };
                t.push(x);
            }
        }
    }
    if matches!(op, Op::Insert | Op::Replace) {
        let x = if r.one_in(8) { t[0].clone() } else { text(r) };
        t.push(x);
    }
    // bound the total size
    while t.iter().map(|x| x.len()).sum::<usize>() > BIG {
        for x in t.iter_mut().skip(1) {
            let m = x.len() / 2;
            x.truncate(m);
        }
    }
    Case { op, t, n, p }
}

fn chars_show(t: &[Vec<char>]) -> String {
    let v: Vec<String> = t
        .iter()
        .map(|x| if x.len() > 200 { format!("<{} chars starting with {:?}>", x.len(), x[..40].iter().collect::<String>()) } else { format!("{:?}", x.iter().collect::<String>()) })
        .collect();
    v.join(", ")
}
fn units_show<U: Unit16or8>(u: &[U]) -> String {
    match U::dec(u) {
        Some(c) => chars_show(&[c]),
        None => format!("ill-formed {:x?}", U::bytes(&u[..u.len().min(60)])),
    }
}

fn case_hash<U: Unit16or8>(op: Op, t: &[Vec<U>], n: i64, p: i64) -> u64 {
    let mut v = vec![op as u64, U::SIZE as u64, n as u64, p as u64];
    v.extend(t.iter().map(|x| hash_bytes(&U::bytes(x))));
    hashes(&v)
}

fn manip_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>, memory: bool, count: usize) {
    let mut b = Bufs::new();
    for i in 0..cx.n(count) {
        if cx.stop() {
            return;
        }
        let c = valid_case(&mut cx.rng);
        let want = model(c.op, &c.t, c.n, c.p).expect("valid case");
        let enc: Vec<Vec<U>> = c.t.iter().map(|x| U::enc(x)).collect();
        let want_u = U::enc(&want);
        let h = case_hash(c.op, &enc, c.n, c.p);
        let o = exec(cx, f, &mut b, c.op, &enc, c.n, c.p, want_u.len() + 1);
        let multi = enc[0].len() != c.t[0].len();
        cx.eval(h, c.t.iter().any(|x| !x.is_empty()) && if memory { true } else { !want.is_empty() });
        cx.ev(match c.op {
            Op::Left => "LEFT",
            Op::Right => "RIGHT",
            Op::Mid => "MID",
            Op::Insert => "INSERT",
            Op::Delete => "DELETE",
            Op::Replace => "REPLACE",
            Op::Concat => "CONCAT",
            Op::ConcatExt => "CONCAT_EXT",
        });
        cx.ev(if multi { "text with characters of several code units" } else { "text of single-unit characters" });
        if c.t[0].len() > 2048 {
            cx.ev("text longer than 2048 characters");
        }
        let show = |c: &Case| format!("{:?} on {} [{}] n={} p={}", c.op, U::NAME, chars_show(&c.t), c.n, c.p);
        if i < 2 {
            cx.sample(|| format!("{} = {}", show(&c), chars_show(&[want.clone()])));
        }
        if memory {
            if let Err(e) = memory_ok(&b, &enc) {
                cx.violation("memory", || format!("{}: {e}", show(&c)));
            }
            cx.check(o.result.is_err() || o.terminated, "memory", || format!("{}: the destination is not terminated", show(&c)));
            if o.result.is_ok() {
                cx.ev("destination of exactly the needed size");
            }
        } else {
            match &o.result {
                Ok(u) if *u == want_u && o.status != 0 => cx.violation("manip", || format!("{}: delivers {} as its status, expected 0 (success)", show(&c), o.status)),
                Ok(u) => cx.check(*u == want_u && o.terminated, "manip", || format!("{}: got {}{}, expected {}", show(&c), units_show(u), if o.terminated { "" } else { " without terminator" }, chars_show(&[want.clone()]))),
                Err(()) => cx.violation("manip", || format!("{}: rejected (panic), expected {}", show(&c), chars_show(&[want.clone()]))),
            }
        }
    }
}

/// Number of operands of a variadic function: usually few, at times more than any counter of 8 bits.
fn operands(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.pick(&[9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100]),
        1 if r.one_in(3) => r.pick(&[127, 128, 129, 255, 256, 257, 258, 300]),
        1 if r.one_in(40) => r.pick(&[32767, 32768, 65535, 65536, 65537, 65538]),
        _ => 2 + r.below(40),
    }
}
struct Many<U> {
    store: Vec<Vec<U>>,
    ptrs: Vec<*const U>,
    argv: Guard,
}
impl<U: Unit16or8> Many<U> {
    fn new() -> Self {
        Many { store: vec![], ptrs: vec![], argv: Guard::new(70_000 * 8) }
    }
    /// equal texts may be the same variable
    fn set(&mut self, v: &[Vec<U>], r: &mut Rng) -> *const *const U {
        self.store = v.iter().map(|x| [&x[..], &[U::default()]].concat()).collect();
        self.ptrs = self.store.iter().map(|x| x.as_ptr()).collect();
        let share = r.coin();
        for i in 1..v.len() {
            if share && v[i] == v[i - 1] && r.coin() {
                self.ptrs[i] = self.ptrs[i - 1];
            }
        }
        self.argv.put(&self.ptrs, 0x66)
    }
}
fn many_concat<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut m = Many::new();
    let mut dest = Guard::new(BIG * 10);
    for _ in 0..cx.n(600) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let n = operands(r);
        let pool: Vec<Vec<char>> = (0..1 + r.below(5)).map(|_| { let k = r.below(4); r.text_n(k) }).collect();
        let texts: Vec<&Vec<char>> = (0..n).map(|_| &pool[r.below(pool.len())]).collect();
        let enc: Vec<Vec<U>> = texts.iter().map(|x| U::enc(x)).collect();
        let want: Vec<U> = enc.concat();
        let argv = m.set(&enc, r);
        let k = r.next() as u8 | 1;
        for ext in [false, true] {
            let d = dest.dest((want.len() + 1) * U::SIZE, |i| (i as u8).wrapping_mul(3) ^ k | 1, k) as *mut U;
            let name = if ext { f.concat_ext.0 } else { f.concat.0 };
            let res = unsafe {
                if ext {
                    call(name, &[n as u64], || f.concat_ext.1(d, n as i32, argv))
                } else {
                    call(name, &[n as u64], || f.concat.1(d, n as i32, argv)).map(|_| 0)
                }
            };
            let out = U::of_bytes(dest.bytes());
            let end = out.iter().position(|x| x.zero());
            cx.eval(hashes(&[hash_bytes(&U::bytes(&want)), n as u64, ext as u64, 77]), !want.is_empty());
            cx.ev("CONCAT of many texts");
            cx.check(res == Ok(0) && end == Some(want.len()) && out[..want.len()] == want[..] && dest.canary_ok(), "many", || {
                format!("{name} of {n} texts out of {}: {res:?}, {end:?} units, expected {}", chars_show(&pool), want.len())
            });
        }
    }
}
fn many_cmp<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut m = Many::new();
    for _ in 0..cx.n(600) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let n = operands(r);
        let small = r.coin();
        let mut v: Vec<Vec<U>> = (0..n).map(|i| {
            let mut x = U::enc(&format!("{:05}", if small { i / 3 } else { i }).chars().collect::<Vec<_>>());
            if r.one_in(9) && !small {
                x.push(U::random(r));
            }
            x
        }).collect();
        match r.below(4) {
            0 => {}
            1 => v.reverse(),
            2 => v = vec![v[0].clone(); n],
            _ => v.sort(),
        }
        // one element out of order, often the last
        if r.coin() {
            let k = match r.below(4) {
                0 => n - 1,
                1 => n - 2,
                2 => 0,
                _ => r.below(n),
            };
            match r.below(3) {
                0 => v[k] = vec![],
                1 => v[k].push(U::random(r)),
                _ => v[k] = if k > 0 { v[k - 1].clone() } else { v[n - 1].clone() },
            }
        }
        let argv = m.set(&v, r);
        let same = m.ptrs.windows(2).any(|w| w[0] == w[1]);
        let h = hashes(&[hash_bytes(&U::bytes(&v.concat())), n as u64]);
        for (ix, (name, g)) in f.cmp.iter().enumerate() {
            let first = v.windows(2).position(|w| !rel(ix, w[0].cmp(&w[1])));
            let got = unsafe { call(name, &[n as u64], || g(n as i32, argv)) };
            cx.eval(hashes(&[h, ix as u64, 78]), true);
            cx.ev(if first.is_none() { "long chain holds" } else { "long chain does not hold" });
            if same {
                cx.ev("the same variable as several operands");
            }
            cx.expect(got, Some(first.is_none()), || format!("{name} of {n} texts; the relation {}", first.map_or("holds".into(), |k| format!("does not hold between operand {} and {}", k + 1, k + 2))));
        }
    }
    // one variable twice
    let t = vec![U::enc(&['a', 'b']), U::enc(&['a', 'b'])];
    let p = m.set(&t[..1], &mut cx.rng);
    let q = unsafe { *p };
    let got = unsafe { call(f.ne.0, &[], || f.ne.1(q, q)) };
    cx.expect(got, Some(false), || format!("{} of one variable", f.ne.0));
}

fn len_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    for i in 0..cx.n(20_000) {
        if cx.stop() {
            return;
        }
        let h = text(&mut cx.rng);
        let he = U::enc(&h);
        let hb = U::bytes(&he);
        let hp = b.put(0, &he, &mut cx.rng);
        set_bufs(&[&hb]);
        let got = unsafe { call(f.len.0, &[], || f.len.1(hp)) };
        cx.ev(if he.len() == h.len() { "LEN: single-unit characters" } else { "LEN: characters of several code units" });
        if h.len() > 32767 {
            cx.ev("LEN: more than 32767 characters");
        }
        cx.eval(hashes(&[2, U::SIZE as u64, hash_bytes(&hb)]), !h.is_empty());
        cx.expect(got, Some(h.len() as i32), || format!("{}({})", f.len.0, chars_show(&[h.clone()])));
        if i < 1 {
            cx.sample(|| format!("{}({}) = {}", f.len.0, chars_show(&[h.clone()]), h.len()));
        }
        if let Err(e) = memory_ok(&b, &[he]) {
            cx.violation("len", || format!("{}({}): {e}", f.len.0, chars_show(&[h.clone()])));
        }
    }
}
fn len_chars<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    let mut c = 1 + (cx.o.seed % 3) as u32;
    while c < 0x110000 {
        if let Some(ch) = char::from_u32(c) {
            let e = U::enc(&[ch, 'x', ch, 'é', ch]);
            let p = b.put(0, &e, &mut cx.rng);
            let l = unsafe { call(f.len.0, &[c as u64], || f.len.1(p)) };
            cx.expect(l, Some(5), || format!("{} of a text with U+{c:04X}", f.len.0));
            cx.eval(hashes(&[4, c as u64, U::SIZE as u64]), true);
            cx.ev("LEN: character enumerated");
        }
        c += 3;
    }
}

pub fn c01(o: Opts) -> ! {
    let units = vec![
        unit("LEN STRING", 4, |cx| len_unit(cx, &fns8())),
        unit("LEN WSTRING", 4, |cx| len_unit(cx, &fns16())),
        unit("LEN chars STRING", 1, |cx| len_chars(cx, &fns8())),
        unit("LEN chars WSTRING", 1, |cx| len_chars(cx, &fns16())),
        unit("STRING", 24, |cx| manip_unit(cx, &fns8(), false, 30_000)),
        unit("WSTRING", 24, |cx| manip_unit(cx, &fns16(), false, 30_000)),
        unit("many STRING", 4, |cx| many_concat(cx, &fns8())),
        unit("many WSTRING", 4, |cx| many_concat(cx, &fns16())),
        unit("exhaustive STRING", 1, |cx| exhaustive_manip(cx, &fns8(), false)),
        unit("exhaustive WSTRING", 1, |cx| exhaustive_manip(cx, &fns16(), false)),
    ];
    run(o, units, &["LEFT", "RIGHT", "MID", "INSERT", "DELETE", "REPLACE", "CONCAT", "CONCAT_EXT", "text with characters of several code units", "text of single-unit characters", "text longer than 2048 characters", "exhaustive small text", "CONCAT of many texts", "LEN: characters of several code units", "LEN: more than 32767 characters", "LEN: character enumerated"])
}

/// All texts over a small alphabet up to a length, all arguments in and slightly out of range.
fn exhaustive_manip<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>, invalid: bool) {
    let mut b = Bufs::new();
    let alpha = ['a', 'ß', '中', '😀'];
    let maxlen = if cx.thorough() { 4 } else { 3 };
    let mut texts: Vec<Vec<char>> = vec![vec![]];
    let mut layer = vec![vec![]];
    for _ in 0..maxlen {
        layer = layer.iter().flat_map(|t: &Vec<char>| alpha.iter().map(|c| [t.clone(), vec![*c]].concat()).collect::<Vec<_>>()).collect();
        texts.extend(layer.iter().cloned());
    }
    let ins: Vec<Vec<char>> = vec![vec![], vec!['b'], vec!['😁', 'x'], "→€".chars().collect()];
    for t in &texts {
        if cx.stop() {
            return;
        }
        let l = t.len() as i64;
        for op in OPS {
            let two = matches!(op, Op::Insert | Op::Replace | Op::Concat | Op::ConcatExt);
            let hasn = !matches!(op, Op::Insert | Op::Concat | Op::ConcatExt);
            let hasp = matches!(op, Op::Mid | Op::Insert | Op::Delete | Op::Replace);
            for x in if two { &ins[..] } else { &ins[..1] } {
                for n in if hasn { -2..=l + 2 } else { 0..=0 } {
                    for p in if hasp { -2..=l + 2 } else { 0..=0 } {
                        let mut tt = vec![t.clone()];
                        if two {
                            tt.push(x.clone());
                        }
                        let want = model(op, &tt, n, p);
                        if want.is_some() == invalid {
                            continue;
                        }
                        let enc: Vec<Vec<U>> = tt.iter().map(|x| U::enc(x)).collect();
                        let room = want.as_ref().map(|w| U::enc(w).len() + 1).unwrap_or(64);
                        let o = exec(cx, f, &mut b, op, &enc, n, p, room);
                        cx.eval(case_hash(op, &enc, n, p), !t.is_empty());
                        cx.ev("exhaustive small text");
                        match (&o.result, &want) {
                            (Ok(u), Some(w)) => cx.check(*u == U::enc(w) && o.terminated, "manip", || format!("{op:?} on {} [{}] n={n} p={p}: got {}, expected {}", U::NAME, chars_show(&tt), units_show(u), chars_show(&[w.clone()]))),
                            (Err(()), Some(w)) => cx.violation("manip", || format!("{op:?} on {} [{}] n={n} p={p}: rejected, expected {}", U::NAME, chars_show(&tt), chars_show(&[w.clone()]))),
                            (Ok(u), None) => cx.violation("accepted", || format!("{op:?} on {} [{}] n={n} p={p}: accepted with the result {}, but there is no such part of the text", U::NAME, chars_show(&tt), units_show(u))),
                            (Err(()), None) => {}
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- C02

fn invalid_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    for i in 0..cx.n(25_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let op = r.pick(&[Op::Left, Op::Right, Op::Mid, Op::Insert, Op::Delete, Op::Replace]);
        let mut t = vec![text(r)];
        if matches!(op, Op::Insert | Op::Replace) {
            t.push(text(r));
        }
        while t.iter().map(|x| x.len()).sum::<usize>() > 60_000 {
            t[0].truncate(100);
            if t.len() > 1 {
                t[1].truncate(100);
            }
        }
        let len = t[0].len() as i64;
        let units = U::enc(&t[0]).len() as i64;
        // out-of-range values: next to the borders, extremes, byte/unit counts taken for characters,
        // values which wrap around when added
        let wild = |r: &mut Rng| -> i64 {
            let v = match r.below(9) {
                0 => -1,
                1 => len + 1,
                2 => i32::MAX as i64 - r.below(4) as i64,
                3 => i32::MIN as i64 + r.below(4) as i64,
                4 => units + r.range(0, 2),
                5 => r.int() as i32 as i64,
                6 => len + r.range(1, 8),
                7 => -r.range(1, len.max(1) + 2),
                _ => r.pick(&[256, 65536, -256, -65536, 1 << 24, 1 << 16, 255, 65535]) + r.range(0, len),
            };
            v.clamp(i32::MIN as i64, i32::MAX as i64)
        };
        let fine = |r: &mut Rng| within(r, len);
        let (mut n, mut p) = if r.coin() { (wild(r), fine(r)) } else if r.coin() { (fine(r), wild(r)) } else { (wild(r), wild(r)) };
        if matches!(op, Op::Left | Op::Right) {
            n = wild(r);
            p = 0;
        }
        if op == Op::Insert {
            p = wild(r);
            n = 0;
        }
        // complementary pairs: p + n wraps or cancels out
        if r.one_in(6) && matches!(op, Op::Mid | Op::Delete | Op::Replace) {
            p = r.range(1, len.max(1) + 3);
            n = (i32::MAX as i64 + 1 - p + r.range(-2, 2)).min(i32::MAX as i64);
            if r.coin() {
                n = -(p - 1).max(1);
            }
        }
        if model(op, &t, n, p).is_some() {
            continue;
        }
        let enc: Vec<Vec<U>> = t.iter().map(|x| U::enc(x)).collect();
        let room = enc.iter().map(|x| x.len()).sum::<usize>() * 2 + 64;
        let o = exec(cx, f, &mut b, op, &enc, n, p, room);
        cx.eval(case_hash(op, &enc, n, p), !t[0].is_empty());
        if n < 0 {
            cx.ev("negative length");
        }
        if matches!(op, Op::Mid | Op::Delete | Op::Replace | Op::Insert) {
            if p < 1 {
                cx.ev("position below the text")
            } else if p > len {
                cx.ev("position beyond the text")
            } else {
                cx.ev("part exceeds the text")
            }
        } else if n > len {
            cx.ev("length exceeds the text")
        }
        if n > 0 && n > len && n < units {
            cx.ev("length between characters and code units");
        }
        if i < 2 {
            cx.sample(|| format!("{op:?} on {} [{}] n={n} p={p}: rejected={}", U::NAME, chars_show(&t), o.result.is_err()));
        }
        if let Ok(u) = &o.result {
            cx.violation("accepted", || format!("{op:?} on {} [{}] n={n} p={p}: accepted with the result {}, but there is no such part of the text", U::NAME, chars_show(&t), units_show(u)));
        }
    }
    // comparisons need two operands
    for _ in 0..cx.n(200) {
        let t = text(&mut cx.rng);
        let e = U::enc(&t);
        let q = b.put(0, &e, &mut cx.rng);
        let argv = b.argv(&[q, q]);
        let argc = cx.rng.pick(&[1, 0, -1, i32::MIN]);
        for (name, g) in f.cmp {
            let res = unsafe { call(name, &[argc as u64], || g(argc, argv)) };
            cx.eval(hashes(&[hash_str(name), argc as u64, hash_str(&format!("{t:?}"))]), true);
            cx.ev("comparison of less than two operands");
            cx.check(res.is_err(), "accepted", || format!("{name} with {argc} operand(s) was accepted: {res:?}"));
        }
    }
}

pub fn c02(o: Opts) -> ! {
    let units = vec![
        unit("STRING", 24, |cx| invalid_unit(cx, &fns8())),
        unit("WSTRING", 24, |cx| invalid_unit(cx, &fns16())),
        unit("exhaustive STRING", 1, |cx| exhaustive_manip(cx, &fns8(), true)),
        unit("exhaustive WSTRING", 1, |cx| exhaustive_manip(cx, &fns16(), true)),
    ];
    run(
        o,
        units,
        &["negative length", "position below the text", "position beyond the text", "part exceeds the text", "length exceeds the text", "length between characters and code units", "comparison of less than two operands", "exhaustive small text"],
    )
}

// ---------------------------------------------------------------------------------------------- C03

fn find_model(h: &[char], n: &[char]) -> i32 {
    if n.is_empty() || h.len() < n.len() {
        return 0;
    }
    (0..=h.len() - n.len()).find(|&i| h[i..i + n.len()] == *n).map_or(0, |i| i as i32 + 1)
}

/// Another text of the same length which simple digests do not distinguish: sums, exclusive ors (also of words),
/// polynomials with a small base, CRCs, first and last unit.
fn twin<U: Unit16or8>(r: &mut Rng, x: &[U]) -> Vec<U> {
    let n = x.len();
    for _ in 0..40 {
        let mut y: Vec<i64> = x.iter().map(|u| u.num()).collect();
        match r.below(6) {
            0 if n > 1 => {
                // polynomials: sum of units times base^k
                const BASES: [i64; 10] = [31, 33, 37, 53, 65, 131, 137, 256, 257, 65_599];
                let (b, i) = (if r.coin() { 31 } else { r.pick(&BASES) }, r.below(n - 1));
                let d = r.pick(&[1, -1]);
                if r.coin() {
                    y[i] += d;
                    y[i + 1] -= d * b;
                } else {
                    y[i] -= d * b;
                    y[i + 1] += d;
                }
            }
            1 if n > 1 => {
                let (i, j, d) = (r.below(n), r.below(n), r.range(-9, 9));
                y[i] += d;
                y[j] -= d;
            }
            2 if n > 1 => {
                let (i, d) = (r.below(n), r.range(1, 31));
                let k = i + r.pick(&[1, 2, 4, 8, 16, 32]);
                if k < n {
                    y[i] ^= d;
                    y[k] ^= d;
                }
            }
            3 if n > 1 => {
                // blocks exchanged
                let k = r.pick(&[1, 2, 4, 8, 16]);
                if n >= 2 * k {
                    let (i, j) = (r.below(n / k), r.below(n / k));
                    for q in 0..k {
                        y.swap(i * k + q, j * k + q);
                    }
                }
            }
            4 if n > 5 && U::SIZE == 1 => {
                // a multiple of the generator of CRC-32 (bits reflected)
                let (i, sh) = (r.below(n - 5), r.below(7));
                let g = ((0xEDB8_8320u64 << 1) | 1) << sh;
                for q in 0..5 {
                    y[i + q] ^= (g >> (8 * q)) as i64 & 255;
                }
            }
            _ => r.shuffle(&mut y),
        }
        if let Some(t) = y.into_iter().map(U::of).collect::<Option<Vec<U>>>() {
            if t != x {
                return t;
            }
        }
    }
    x.to_vec()
}

fn find_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    for i in 0..cx.n(30_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let mut h = text(r);
        if h.len() > 3000 && !r.one_in(4) {
            h.truncate(300);
        }
        let mut n: Vec<char> = match r.below(8) {
            0 => text(r),
            1 => vec![],
            2 => h.clone(),
            3 => {
                let p = r.below(5) as u8;
                vec![r.ch(p)]
            }
            _ => {
                if h.is_empty() {
                    vec!['a']
                } else {
                    let s = r.below(h.len());
                    let e = (s + 1 + r.below(6)).min(h.len());
                    h[s..e].to_vec()
                }
            }
        };
        if h.len() > 3000 {
            n.truncate(20);
        }
        // near misses
        match r.below(10) {
            0 if !n.is_empty() => {
                let k = n.len() - 1;
                n[k] = r.ch(2);
            }
            1 if !n.is_empty() => {
                // same trailing unit, other character
                let k = r.below(n.len());
                n[k] = r.ch(4);
            }
            2 => n.push('a'),
            3 => {
                // repeated partial matches in front of the match
                let mut x = vec![];
                for _ in 0..r.below(5) {
                    let k = r.below(n.len() + 1);
                    x.extend_from_slice(&n[..k]);
                }
                x.extend_from_slice(&n);
                if r.coin() {
                    h = x;
                } else {
                    x.extend_from_slice(&h);
                    h = x;
                }
            }
            4 => h.extend_from_slice(&n),
            _ => {}
        }
        if cx.rng.one_in(60) {
            // another text with the same hash in front of the match: permuted characters (sums), Thue-Morse sequences (polynomials of any base modulo 2^64)
            let r = &mut cx.rng;
            let (x, y) = (r.ch(2), r.ch(2));
            let k = if r.one_in(8) { 2 + r.below(10) } else { r.below(6) };
            let tm = |flip: u32| -> Vec<char> {
                let t = (0..1u32 << k).map(|i| if (i.count_ones() + flip) % 2 == 0 { x } else { y });
                ['x'].into_iter().chain(t).chain(['x']).collect()
            };
            let (mut other, mut wanted) = (tm(0), tm(1));
            if r.coin() {
                wanted = r.text();
                wanted.truncate(40);
                other = wanted.clone();
                for i in (1..other.len()).rev() {
                    other.swap(i, r.below(i + 1));
                }
            }
            if r.coin() {
                wanted = (0..2 + r.below(30)).map(|_| r.ch(1)).collect();
                let t = twin(r, &U::enc(&wanted));
                other = U::dec(&t).unwrap_or_else(|| wanted.clone());
                if other.len() != wanted.len() || other.iter().any(|c| *c as u32 > 0xff) {
                    other = wanted.iter().rev().copied().collect();
                }
            }
            h.truncate(2000);
            h.extend_from_slice(&other);
            if r.coin() {
                h.extend_from_slice(&wanted);
            }
            n = wanted;
            cx.ev("FIND: another text with the same hash");
        }
        if h.len() > BIG {
            continue;
        }
        let (he, ne) = (U::enc(&h), U::enc(&n));
        let want = find_model(&h, &n);
        let hp = b.put(0, &he, &mut cx.rng);
        let np = b.put(1, &ne, &mut cx.rng);
        let (hb, nb) = (U::bytes(&he), U::bytes(&ne));
        set_bufs(&[&hb, &nb]);
        let got = unsafe { call(f.find.0, &[], || f.find.1(hp, np)) };
        cx.eval(hashes(&[1, U::SIZE as u64, hash_bytes(&hb), hash_bytes(&nb)]), !h.is_empty() && !n.is_empty());
        cx.ev(if n.is_empty() {
            "FIND of an empty text"
        } else if want == 0 {
            "FIND: not found"
        } else if U::enc(&h[..want as usize - 1]).len() as i32 != want - 1 {
            "FIND: found behind characters of several code units"
        } else {
            "FIND: found"
        });
        if i < 2 {
            cx.sample(|| format!("FIND({}) on {} = {want}", chars_show(&[h.clone(), n.clone()]), U::NAME));
        }
        cx.expect(got, Some(want), || format!("{}({})", f.find.0, chars_show(&[h.clone(), n.clone()])));
        if h.len() > 32767 {
            cx.ev("FIND: more than 32767 characters");
        }
    }
}
/// Every character on its own and surrounded.
fn find_chars<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    let step = if cx.thorough() { 1 } else { 7 };
    let chunk = cx.chunk as u32;
    let start = 1 + chunk * 0x110000 / 8;
    let mut c = start + (cx.o.seed % step as u64) as u32;
    while c < 1 + (chunk + 1) * 0x110000 / 8 && c < 0x110000 {
        if let Some(ch) = char::from_u32(c) {
            let t = [ch, 'x', ch, 'é', ch];
            let e = U::enc(&t);
            let p = b.put(0, &e, &mut cx.rng);
            if ch != 'é' {
                let n = U::enc(&['é', ch]);
                let q = b.put(1, &n, &mut cx.rng);
                let l = unsafe { call(f.find.0, &[c as u64], || f.find.1(p, q)) };
                cx.expect(l, Some(4), || format!("{} in a text with U+{c:04X}", f.find.0));
            }
            cx.eval(hashes(&[3, c as u64, U::SIZE as u64]), true);
            cx.ev("character enumerated");
        }
        c += step;
    }
}

pub fn c03(o: Opts) -> ! {
    let units = vec![
        unit("STRING", 16, |cx| find_unit(cx, &fns8())),
        unit("WSTRING", 16, |cx| find_unit(cx, &fns16())),
        unit("chars STRING", 8, |cx| find_chars(cx, &fns8())),
        unit("chars WSTRING", 8, |cx| find_chars(cx, &fns16())),
    ];
    run(
        o,
        units,
        &["FIND of an empty text", "FIND: not found", "FIND: found behind characters of several code units", "FIND: found", "FIND: more than 32767 characters", "FIND: another text with the same hash", "character enumerated"],
    )
}

// ---------------------------------------------------------------------------------------------- C04

fn rel(k: usize, o: std::cmp::Ordering) -> bool {
    match k {
        0 => o.is_gt(),
        1 => o.is_ge(),
        2 => o.is_eq(),
        3 => o.is_le(),
        _ => o.is_lt(),
    }
}

fn cmp_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    for i in 0..cx.n(20_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let base: Vec<U> = if r.one_in(4) { (0..r.text_len()).map(|_| U::random(r)).collect() } else { U::enc(&r.text()) };
        let k = if r.one_in(3) { 2 } else { 2 + r.below(6) };
        let mut v: Vec<Vec<U>> = vec![base.clone()];
        let mut twins = false;
        while v.len() < k {
            let mut x = if r.coin() { base.clone() } else { v[r.below(v.len())].clone() };
            match r.below(8) {
                0 => {}
                1 => x.push(U::random(r)),
                2 => {
                    x.pop();
                }
                3 | 4 if !x.is_empty() => {
                    let p = if r.coin() { x.len() - 1 } else { r.below(x.len()) };
                    x[p] = U::random(r);
                }
                5 => x = U::enc(&r.text()),
                6 if r.coin() => {
                    let m = r.below(x.len() + 1);
                    x.truncate(m)
                }
                6 => {
                    x = twin(r, &x);
                    twins = true;
                }
                _ => {}
            }
            v.push(x);
        }
        // chains which are (nearly) ordered
        match r.below(5) {
            0 => v.sort(),
            1 => {
                v.sort();
                v.reverse()
            }
            2 => {
                v.sort();
                let (i, j) = (r.below(k), r.below(k));
                v.swap(i, j);
            }
            3 => {
                let x = v[0].clone();
                let odd = r.below(k);
                for (i, y) in v.iter_mut().enumerate() {
                    if i != odd || r.one_in(3) {
                        *y = x.clone()
                    }
                }
            }
            _ => {}
        }
        if twins {
            cx.ev("texts with the same digest");
        }
        let bytes: Vec<Vec<u8>> = v.iter().map(|x| U::bytes(x)).collect();
        let refs: Vec<&[u8]> = bytes.iter().map(|x| &x[..]).collect();
        let ptrs: Vec<*const U> = (0..v.len()).map(|i| b.put(i, &v[i], &mut cx.rng)).collect();
        let argv = b.argv(&ptrs);
        let hv: Vec<u64> = bytes.iter().map(|x| hash_bytes(x)).collect();
        let h = hashes(&hv);
        let mut any = false;
        for (ix, (name, g)) in f.cmp.iter().enumerate() {
            let want = v.windows(2).all(|w| rel(ix, w[0].cmp(&w[1])));
            any |= want;
            set_bufs(&refs);
            let got = unsafe { call(name, &[k as u64], || g(k as i32, argv)) };
            cx.eval(hashes(&[h, ix as u64, U::SIZE as u64]), true);
            cx.ev(if want { "relation holds" } else { "relation does not hold" });
            cx.expect(got, Some(want), || format!("{name} of {k} texts {:?}", bytes.iter().map(|x| esc(&x[..x.len().min(100)])).collect::<Vec<_>>()));
        }
        if k > 2 && any {
            cx.ev("chain of more than two operands holds");
        }
        set_bufs(&refs[..2]);
        let got = unsafe { call(f.ne.0, &[], || f.ne.1(ptrs[0], ptrs[1])) };
        cx.eval(hashes(&[h, 7, U::SIZE as u64]), true);
        cx.expect(got, Some(v[0] != v[1]), || format!("{} of {:?}", f.ne.0, bytes[..2].iter().map(|x| esc(&x[..x.len().min(100)])).collect::<Vec<_>>()));
        if v[0] != v[1] && (v[0].starts_with(&v[1]) || v[1].starts_with(&v[0])) {
            cx.ev("one text is a prefix of the other");
        }
        if i < 2 {
            cx.sample(|| format!("comparisons of {:?} ({})", bytes.iter().map(|x| esc(x)).collect::<Vec<_>>(), U::NAME));
        }
    }
}
/// All pairs of short texts over hostile units.
fn cmp_pairs<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>, units: &[U]) {
    let mut b = Bufs::new();
    let mut texts: Vec<Vec<U>> = vec![vec![]];
    for a in units {
        texts.push(vec![*a]);
        for c in units {
            texts.push(vec![*a, *c]);
        }
    }
    for x in &texts {
        for y in &texts {
            let p = b.put(0, x, &mut cx.rng);
            let q = b.put(1, y, &mut cx.rng);
            let argv = b.argv(&[p, q]);
            for (ix, (name, g)) in f.cmp.iter().enumerate() {
                let got = unsafe { call(name, &[], || g(2, argv)) };
                cx.expect(got, Some(rel(ix, x.cmp(y))), || format!("{name} of {x:x?} and {y:x?}"));
            }
            let got = unsafe { call(f.ne.0, &[], || f.ne.1(p, q)) };
            cx.expect(got, Some(x != y), || format!("{} of {x:x?} and {y:x?}", f.ne.0));
            cx.eval(hashes(&[hash_bytes(&U::bytes(x)), hash_bytes(&U::bytes(y)), 11, U::SIZE as u64]), true);
            cx.ev("pair of short texts enumerated");
        }
    }
}

pub fn c04(o: Opts) -> ! {
    let units = vec![
        unit("STRING", 16, |cx| cmp_unit(cx, &fns8())),
        unit("WSTRING", 16, |cx| cmp_unit(cx, &fns16())),
        unit("many STRING", 4, |cx| many_cmp(cx, &fns8())),
        unit("many WSTRING", 4, |cx| many_cmp(cx, &fns16())),
        unit("pairs STRING", 1, |cx| cmp_pairs(cx, &fns8(), &[1, 0x41, 0x61, 0x7f, 0x80, 0xc3, 0xfe, 0xff])),
        unit("pairs WSTRING", 1, |cx| cmp_pairs(cx, &fns16(), &[1, 0x41, 0x100, 0x7fff, 0x8000, 0xd800, 0xdc00, 0xff00, 0xffff])),
    ];
    run(o, units, &["relation holds", "relation does not hold", "chain of more than two operands holds", "one text is a prefix of the other", "pair of short texts enumerated", "long chain holds", "long chain does not hold", "the same variable as several operands", "texts with the same digest"])
}

// ---------------------------------------------------------------------------------------------- C05

/// Ill-formed and truncated texts: whatever the result is, nothing outside of the texts is touched.
fn hostile_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    for _ in 0..cx.n(10_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let op = r.pick(&OPS);
        let gen = |r: &mut Rng| -> Vec<U> {
            let n = r.below(12);
            let mut v: Vec<U> = if r.coin() { U::enc(&r.text_n(n)) } else { vec![] };
            for _ in 0..r.below(4) {
                let k = r.below(v.len() + 1);
                v.insert(k, U::random(r));
            }
            // cut within a character
            if r.coin() {
                let c = r.ch(2);
                let e = U::enc(&[c]);
                let k = r.below(e.len() + 1);
                v.extend_from_slice(&e[..k]);
            }
            v
        };
        let mut t = vec![gen(r)];
        if matches!(op, Op::Insert | Op::Replace | Op::Concat | Op::ConcatExt) {
            t.push(gen(r));
        }
        let l = t[0].len() as i64 + 1;
        let (n, p) = (r.range(-1, l), r.range(-1, l));
        let ill = t.iter().any(|x| U::dec(x).is_none());
        let room = t.iter().map(|x| x.len()).sum::<usize>() * 3 + 1;
        let o = exec(cx, f, &mut b, op, &t, n, p, room);
        cx.eval(case_hash(op, &t, n, p), ill);
        if ill {
            cx.ev("ill-formed text");
        }
        if let Err(e) = memory_ok(&b, &t) {
            cx.violation("memory", || format!("{op:?} {t:x?} n={n} p={p}: {e}"));
        }
        cx.check(o.result.is_err() || o.terminated, "memory", || format!("{op:?} {t:x?} n={n} p={p}: not terminated"));
        let (a, c) = (b.put(0, &t[0], &mut cx.rng), b.put(1, t.last().unwrap(), &mut cx.rng));
        let _ = unsafe { call(f.len.0, &[], || f.len.1(a)) };
        let _ = unsafe { call(f.find.0, &[], || f.find.1(a, c)) };
        let argv = b.argv(&[a, c]);
        let k = cx.rng.below(5);
        let (name, g) = f.cmp[k];
        let _ = unsafe { call(name, &[], || g(2, argv)) };
        let _ = unsafe { call(f.ne.0, &[], || f.ne.1(a, c)) };
        cx.eval(hashes(&[hash_bytes(&U::bytes(&t[0])), 99]), ill);
        cx.ev("readers in front of guard pages");
        if !b.src[0].canary_ok() || !b.src[1].canary_ok() || b.src[0].bytes()[..t[0].len() * U::SIZE] != U::bytes(&t[0])[..] {
            cx.violation("memory", || format!("LEN/FIND/comparison modified the memory of {t:x?}"));
        }
    }
}

/// A null pointer in place of a text is an empty text.
fn null_unit<U: Unit16or8>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    // nowhere to take the texts from, or to put them: refused
    for argc in [0, 1, 2] {
        let x = b.put(0, &U::enc(&['a']), &mut cx.rng);
        let argv = b.argv(&[x, x]);
        let mut room = vec![U::enc(&['z'])[0]; 8];
        let d = room.as_mut_ptr();
        for (d, v) in [(std::ptr::null_mut(), argv), (d, std::ptr::null()), (std::ptr::null_mut(), std::ptr::null())] {
            let a = [argc as u64, d.is_null() as u64, v.is_null() as u64];
            let res = unsafe { call(f.concat_ext.0, &a, || f.concat_ext.1(d, argc, v)).map(|_| ()) };
            let res2 = unsafe { call(f.concat.0, &a, || f.concat.1(d, argc, v)).map(|_| ()) };
            cx.eval(hashes(&[hash_str(f.concat.0), argc as u64, d.is_null() as u64, v.is_null() as u64]), true);
            cx.ev("CONCAT of a null list or destination");
            cx.check(res.is_err() && res2.is_err(), "null", || format!("{} of {argc} texts with null destination: {}, null list: {} was not refused", f.concat.0, d.is_null(), v.is_null()));
        }
    }
    b.nulls = true;
    for _ in 0..cx.n(3_000) {
        if cx.stop() {
            return;
        }
        let r = &mut cx.rng;
        let mut c = valid_case(r);
        for x in c.t.iter_mut() {
            if r.coin() {
                x.clear();
            } else {
                x.truncate(50);
            }
        }
        let t: Vec<Vec<U>> = c.t.iter().map(|x| U::enc(x)).collect();
        if !r.one_in(4) {
            let l = c.t[0].len() as i64;
            (c.n, c.p) = (c.n.min(l), c.p.min(l));
        }
        let want = model(c.op, &c.t, c.n, c.p);
        let room = want.as_ref().map_or(200, |w| U::enc(w).len() + 1);
        let o = exec(cx, f, &mut b, c.op, &t, c.n, c.p, room);
        let empty = t.iter().any(|x| x.is_empty());
        cx.eval(case_hash(c.op, &t, c.n, c.p), empty);
        if empty {
            cx.ev("null pointer for an empty text");
        }
        let show = || format!("{:?} n={} p={} of {}, null pointers for empty texts", c.op, c.n, c.p, chars_show(&c.t));
        let got = o.result.ok();
        let wu = want.map(|w| U::enc(&w));
        cx.check(got == wu && (got.is_none() || o.terminated), "null", || format!("{}: got {got:x?}, expected {wu:x?}", show()));
        if let Err(e) = memory_ok(&b, &t) {
            cx.violation("memory", || format!("{}: {e}", show()));
        }
        // readers
        let two = [c.t[0].clone(), c.t.last().unwrap().clone()];
        let e: Vec<Vec<U>> = two.iter().map(|x| U::enc(x)).collect();
        let ptrs: Vec<*const U> = (0..2).map(|i| if e[i].is_empty() { std::ptr::null() } else { b.put(i, &e[i], &mut cx.rng) }).collect();
        let got = unsafe { call(f.len.0, &[], || f.len.1(ptrs[0])) };
        cx.expect(got, Some(two[0].len() as i32), || format!("LEN {}, null pointer if empty", chars_show(&two[..1])));
        let got = unsafe { call(f.ne.0, &[], || f.ne.1(ptrs[0], ptrs[1])) };
        cx.expect(got, Some(e[0] != e[1]), || format!("NE {}, null pointers if empty", chars_show(&two)));
        let argv = b.argv(&ptrs);
        for (k, (name, g)) in f.cmp.iter().enumerate() {
            let got = unsafe { call(name, &[], || g(2, argv)) };
            let want = [e[0] > e[1], e[0] >= e[1], e[0] == e[1], e[0] <= e[1], e[0] < e[1]][k];
            cx.expect(got, Some(want), || format!("{name} {}, null pointers if empty", chars_show(&two)));
        }
        if !e[1].is_empty() {
            let pos = two[0].windows(two[1].len()).position(|w| w == &two[1][..]).map_or(0, |i| i as i32 + 1);
            let got = unsafe { call(f.find.0, &[], || f.find.1(ptrs[0], ptrs[1])) };
            cx.expect(got, Some(pos), || format!("FIND in {}, null pointers if empty", chars_show(&two)));
        }
    }
}

pub fn text8(cx: &mut Ctx) -> Vec<u8> {
    // terminated numbers and nonsense for the parsers
    let r = &mut cx.rng;
    let mut s: Vec<u8> = match r.below(4) {
        0 => format!("{}", r.i64()).into_bytes(),
        1 => format!("{}", r.f64()).into_bytes(),
        2 => u8::enc(&r.text_n(6)),
        _ => r.pick(&["16#", "0x", "2#", "8#", "0b", "1", "16", "2", "8", "0", "inf", "1e", "+", "-", "."]).as_bytes().to_vec(),
    };
    if r.one_in(4) {
        s.push(u8::random(r));
    }
    s.truncate(600);
    s
}

fn conv_memory(cx: &mut Ctx) {
    let mut b = Bufs::new();
    let mut g81 = Guard::new(4096);
    for _ in 0..cx.n(10_000) {
        if cx.stop() {
            return;
        }
        // conversions between the encodings: destination of exactly the needed size
        let t = { let mut t = text(&mut cx.rng); t.truncate(5000); t };
        let (a, w) = (u8::enc(&t), u16::enc(&t));
        let p = b.put(0, &a, &mut cx.rng);
        let k = cx.rng.next() as u8 | 1;
        let d = b.dest.dest((w.len() + 1) * 2, |i| (i as u8).wrapping_mul(k) | 1, k) as *mut u16;
        set_bufs(&[&a]);
        let res = unsafe { call("STRING_TO_WSTRING_EXT", &[], || STRING_TO_WSTRING_EXT(p, d)) };
        cx.eval(hashes(&[hash_bytes(&a), 21]), !t.is_empty());
        let out = u16::of_bytes(b.dest.bytes());
        cx.check(res.is_err() || out.contains(&0), "memory", || format!("STRING_TO_WSTRING of {}: not terminated", chars_show(&[t.clone()])));
        if let Err(e) = memory_ok(&b, &[a.clone()]) {
            cx.violation("memory", || format!("STRING_TO_WSTRING of {}: {e}", chars_show(&[t.clone()])));
        }
        let p = b.put(0, &w, &mut cx.rng);
        let d = b.dest.dest(a.len() + 1, |i| (i as u8).wrapping_mul(k) | 1, k);
        let wb = u16::bytes(&w);
        set_bufs(&[&wb]);
        let res = unsafe { call("WSTRING_TO_STRING_EXT", &[], || WSTRING_TO_STRING_EXT(p, d)) };
        cx.eval(hashes(&[hash_bytes(&a), 22]), !t.is_empty());
        cx.check(res.is_err() || b.dest.bytes().contains(&0), "memory", || format!("WSTRING_TO_STRING of {}: not terminated", chars_show(&[t.clone()])));
        if let Err(e) = memory_ok(&b, &[w.clone()]) {
            cx.violation("memory", || format!("WSTRING_TO_STRING of {}: {e}", chars_show(&[t.clone()])));
        }
        cx.ev("conversion with a destination of exactly the needed size");
        // x_TO_STRING: 81 bytes
        let (iv, fv) = (cx.rng.i64(), cx.rng.f64());
        for k in 0..9 {
            let fill = cx.rng.pick(&[0xffu8, b'9', 0, 0xc3]);
            let d = g81.dest(81, |_| fill, 0x33);
            let (name, res) = unsafe {
                match k {
                    0 => ("BYTE_TO_STRING_EXT", call("BYTE_TO_STRING_EXT", &[iv as u64], || BYTE_TO_STRING_EXT(iv as u8, d))),
                    1 => ("LWORD_TO_STRING_EXT", call("LWORD_TO_STRING_EXT", &[iv as u64], || LWORD_TO_STRING_EXT(iv as u64, d))),
                    2 => ("LINT_TO_STRING_EXT", call("LINT_TO_STRING_EXT", &[iv as u64], || LINT_TO_STRING_EXT(iv, d))),
                    3 => ("LREAL_TO_STRING_EXT", call("LREAL_TO_STRING_EXT", &[fv.to_bits()], || LREAL_TO_STRING_EXT(fv, d))),
                    4 => ("REAL_TO_STRING_EXT", call("REAL_TO_STRING_EXT", &[fv.to_bits()], || REAL_TO_STRING_EXT(fv, d))),
                    5 => ("TIME_TO_STRING_EXT", call("TIME_TO_STRING_EXT", &[iv as u64], || TIME_TO_STRING_EXT(iv, d))),
                    6 => ("DT_TO_STRING_EXT", call("DT_TO_STRING_EXT", &[iv as u64], || DT_TO_STRING_EXT(iv, d))),
                    7 => ("DATE_TO_STRING_EXT", call("DATE_TO_STRING_EXT", &[iv as u64], || DATE_TO_STRING_EXT(iv, d))),
                    _ => ("TOD_TO_STRING_EXT", call("TOD_TO_STRING_EXT", &[iv as u64], || TOD_TO_STRING_EXT(iv, d))),
                }
            };
            cx.eval(hashes(&[k, if k == 3 || k == 4 { fv.to_bits() } else { iv as u64 }, 23]), true);
            cx.ev("x_TO_STRING into a STRING of default length");
            cx.check(g81.canary_ok(), "memory", || format!("{name}: wrote in front of the destination"));
            cx.check(res.is_err() || g81.bytes().contains(&0), "memory", || format!("{name}({iv} / {fv}): not terminated, destination {}", esc(g81.bytes())));
        }
        // parsers
        let s = text8(cx);
        let p = b.put(0, &s, &mut cx.rng);
        unsafe {
            set_bufs(&[&s]);
            let _ = call("STRING_TO_LINT", &[], || STRING_TO_LINT(p));
            set_bufs(&[&s]);
            let _ = call("STRING_TO_DINT", &[], || STRING_TO_DINT(p));
            set_bufs(&[&s]);
            let _ = call("STRING_TO_LREAL", &[], || STRING_TO_LREAL(p));
            set_bufs(&[&s]);
            let _ = call("STRING_TO_REAL", &[], || STRING_TO_REAL(p));
        }
        cx.eval(hashes(&[hash_bytes(&s), 24]), true);
        cx.ev("parser in front of a guard page");
        if let Err(e) = memory_ok(&b, &[s.clone()]) {
            cx.violation("memory", || format!("STRING_TO_x of {:?}: {e}", esc(&s)));
        }
    }
    // ill-formed UTF-16
    for _ in 0..cx.n(3_000) {
        let n = cx.rng.below(10);
        let w: Vec<u16> = (0..n).map(|_| u16::random(&mut cx.rng)).collect();
        let p = b.put(0, &w, &mut cx.rng);
        let d = b.dest.dest(w.len() * 3 + 1, |_| 0x61, 0x44);
        let res = unsafe { call("WSTRING_TO_STRING_EXT", &[], || WSTRING_TO_STRING_EXT(p, d)) };
        cx.eval(hashes(&[hash_bytes(&u16::bytes(&w)), 25]), true);
        cx.check(res.is_err() || b.dest.bytes().contains(&0), "memory", || format!("WSTRING_TO_STRING of {w:x?}: not terminated"));
        if let Err(e) = memory_ok(&b, &[w.clone()]) {
            cx.violation("memory", || format!("WSTRING_TO_STRING of {w:x?}: {e}"));
        }
    }
}

pub fn c05(o: Opts) -> ! {
    let units = vec![
        unit("STRING", 16, |cx| manip_unit(cx, &fns8(), true, 20_000)),
        unit("WSTRING", 16, |cx| manip_unit(cx, &fns16(), true, 20_000)),
        unit("hostile STRING", 8, |cx| hostile_unit(cx, &fns8())),
        unit("hostile WSTRING", 8, |cx| hostile_unit(cx, &fns16())),
        unit("conversions", 8, conv_memory),
        unit("null pointers STRING", 2, |cx| null_unit(cx, &fns8())),
        unit("null pointers WSTRING", 2, |cx| null_unit(cx, &fns16())),
    ];
    run(
        o,
        units,
        &["destination of exactly the needed size", "ill-formed text", "readers in front of guard pages", "conversion with a destination of exactly the needed size", "x_TO_STRING into a STRING of default length", "parser in front of a guard page", "null pointer for an empty text", "CONCAT of a null list or destination"],
    )
}

// ---------------------------------------------------------------------------------------------- C06

fn conv_unit(cx: &mut Ctx) {
    let mut b = Bufs::new();
    for i in 0..cx.n(30_000) {
        if cx.stop() {
            return;
        }
        let t = text(&mut cx.rng);
        let (a, w) = (u8::enc(&t), u16::enc(&t));
        conv_one(cx, &mut b, &t, &a, &w);
        if i < 2 {
            cx.sample(|| format!("STRING_TO_WSTRING({}) and back", chars_show(&[t.clone()])));
        }
        // unpaired surrogates become U+FFFD
        let n = cx.rng.below(12);
        let w: Vec<u16> = (0..n).map(|_| u16::random(&mut cx.rng)).collect();
        let want = String::from_utf16_lossy(&w).into_bytes();
        let p = b.put(0, &w, &mut cx.rng);
        let d = b.dest.dest(want.len() + 1, |_| 0x61, 0x44);
        let wb = u16::bytes(&w);
        set_bufs(&[&wb]);
        let res = unsafe { call("WSTRING_TO_STRING_EXT", &[], || WSTRING_TO_STRING_EXT(p, d)) };
        let out = b.dest.bytes().to_vec();
        let end = out.iter().position(|x| *x == 0).unwrap_or(out.len());
        let ill = String::from_utf16(&w).is_err();
        cx.ev(if ill { "unpaired surrogate" } else { "well-formed" });
        cx.eval(hashes(&[hash_bytes(&wb), 3]), true);
        cx.check(res == Ok(0) && out[..end] == want[..], "conv", || format!("WSTRING_TO_STRING of {w:x?}: got {:?} {:?}, expected {:?}", res, esc(&out[..end]), esc(&want)));
    }
}
fn conv_one(cx: &mut Ctx, b: &mut Bufs, t: &[char], a: &[u8], w: &[u16]) {
    let p = b.put(0, a, &mut cx.rng);
    let k = cx.rng.next() as u8 | 1;
    let d = b.dest.dest((w.len() + 1) * 2, |i| (i as u8).wrapping_mul(k) | 1, k) as *mut u16;
    set_bufs(&[a]);
    let res = unsafe { call("STRING_TO_WSTRING_EXT", &[], || STRING_TO_WSTRING_EXT(p, d)) };
    let out = u16::of_bytes(b.dest.bytes());
    let end = out.iter().position(|x| *x == 0);
    cx.ev("STRING_TO_WSTRING");
    cx.eval(hashes(&[hash_bytes(a), 1]), !t.is_empty());
    cx.check(res == Ok(0) && end == Some(w.len()) && out[..w.len()] == *w, "conv", || format!("STRING_TO_WSTRING of {}: got {res:?} {:x?}", chars_show(&[t.to_vec()]), &out[..end.unwrap_or(out.len()).min(60)]));
    let p = b.put(0, w, &mut cx.rng);
    let d = b.dest.dest(a.len() + 1, |i| (i as u8).wrapping_mul(k) | 1, k);
    let wb = u16::bytes(w);
    set_bufs(&[&wb]);
    let res = unsafe { call("WSTRING_TO_STRING_EXT", &[], || WSTRING_TO_STRING_EXT(p, d)) };
    let out = b.dest.bytes().to_vec();
    let end = out.iter().position(|x| *x == 0);
    cx.ev("WSTRING_TO_STRING");
    cx.eval(hashes(&[hash_bytes(a), 2]), !t.is_empty());
    cx.check(res == Ok(0) && end == Some(a.len()) && out[..a.len()] == *a, "conv", || format!("WSTRING_TO_STRING of {}: got {res:?} {:?}", chars_show(&[t.to_vec()]), esc(&out[..end.unwrap_or(out.len()).min(100)])));
}
fn conv_chars(cx: &mut Ctx) {
    let mut b = Bufs::new();
    let chunk = cx.chunk as u32;
    let (lo, hi) = (chunk * 0x110000 / 8, (chunk + 1) * 0x110000 / 8);
    // all scalar values, in texts of 3 characters
    for c in lo.max(1)..hi {
        if cx.stop() {
            return;
        }
        if let Some(ch) = char::from_u32(c) {
            let t = [ch, 'z'];
            conv_one(cx, &mut b, &t, &u8::enc(&t), &u16::enc(&t));
            cx.ev("scalar value enumerated");
        }
    }
    if chunk == 0 {
        for c in 0..=255u8 {
            let got = unsafe { call("CHAR_TO_WCHAR", &[c as u64], || CHAR_TO_WCHAR(c)) };
            cx.eval(hashes(&[c as u64, 4]), true);
            cx.ev("CHAR_TO_WCHAR enumerated");
            cx.expect(got, Some(c as u16), || format!("CHAR_TO_WCHAR({c:#x})"));
        }
        for c in 0..=65535u16 {
            let ch = char::from_u32(c as u32).unwrap_or('\u{fffd}');
            let mut e = [0; 4];
            ch.encode_utf8(&mut e);
            let got = unsafe { call("WCHAR_TO_CHAR", &[c as u64], || WCHAR_TO_CHAR(c)) };
            cx.eval(hashes(&[c as u64, 5]), true);
            cx.ev("WCHAR_TO_CHAR enumerated");
            cx.expect(got, Some(e[0]), || format!("WCHAR_TO_CHAR({c:#x})"));
        }
    }
}

pub fn c06(o: Opts) -> ! {
    let units = vec![unit("texts", 16, conv_unit), unit("characters", 8, conv_chars)];
    run(o, units, &["unpaired surrogate", "STRING_TO_WSTRING", "WSTRING_TO_STRING", "scalar value enumerated", "CHAR_TO_WCHAR enumerated", "WCHAR_TO_CHAR enumerated"])
}

// ---------------------------------------------------------------------------------------------- C38

/// Characters of UTF-8 by the table of the Unicode standard (well-formed byte sequences); None: ill-formed.
fn utf8(b: &[u8]) -> Option<Vec<u32>> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as u32;
        let (n, lo, hi, bits) = match c {
            0x00..=0x7f => (0, 0x80, 0xbf, c),
            0xc2..=0xdf => (1, 0x80, 0xbf, c & 0x1f),
            0xe0 => (2, 0xa0, 0xbf, 0),
            0xed => (2, 0x80, 0x9f, 0xd),
            0xe1..=0xef => (2, 0x80, 0xbf, c & 0xf),
            0xf0 => (3, 0x90, 0xbf, 0),
            0xf1..=0xf3 => (3, 0x80, 0xbf, c & 7),
            0xf4 => (3, 0x80, 0x8f, 4),
            _ => return None,
        };
        let mut v = bits;
        for k in 1..=n {
            let x = *b.get(i + k)? as u32;
            if k == 1 && (x < lo || x > hi) || x & 0xc0 != 0x80 {
                return None;
            }
            v = v << 6 | x & 0x3f;
        }
        o.push(v);
        i += n + 1;
    }
    Some(o)
}
/// Characters of UTF-16; unpaired surrogates stand for themselves.
fn utf16(u: &[u16]) -> Vec<u32> {
    let mut o = vec![];
    let mut i = 0;
    while i < u.len() {
        let c = u[i] as u32;
        match u.get(i + 1) {
            Some(d) if c >> 10 == 0x36 && d >> 10 == 0x37 => {
                o.push(0x10000 + ((c & 0x3ff) << 10 | *d as u32 & 0x3ff));
                i += 2;
            }
            _ => {
                o.push(c);
                i += 1;
            }
        }
    }
    o
}
fn surrogate(c: u32) -> bool {
    c >> 11 == 0x1b
}
trait Ill: Unit16or8 + PartialEq + std::fmt::Debug {
    /// None: the text is refused as a whole
    fn items(u: &[Self]) -> Option<Vec<u32>>;
    /// number of characters to choose lengths and positions from
    fn roughly(u: &[Self]) -> i64;
    fn spoil(r: &mut Rng, t: &mut Vec<Self>);
}
impl Ill for u8 {
    fn items(u: &[u8]) -> Option<Vec<u32>> {
        utf8(u)
    }
    fn roughly(u: &[u8]) -> i64 {
        u.iter().filter(|b| **b & 0xc0 != 0x80).count() as i64
    }
    fn spoil(r: &mut Rng, t: &mut Vec<u8>) {
        let pool: &[&[u8]] = &[
            b"\x80", b"\xbf", b"\xc0", b"\xc1", b"\xc3", b"\xe2", b"\xf0", b"\xf5", b"\xfe", b"\xff", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\xbd\xed\xb8\x80",
            b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf7\xbf\xbf\xbf", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xe2\x82a", b"\xf0\x9f\x98a", b"\xc3a", b"\xe4",
        ];
        let k = match r.below(4) {
            0 => 0,
            1 => t.len(),
            _ => r.below(t.len() + 1),
        };
        match r.below(5) {
            0 if k < t.len() => t[k] ^= 1 << r.below(8),
            1 if k < t.len() => {
                t.remove(k);
            }
            2 if !t.is_empty() => {
                // a character cut at the end
                while t.len() > 1 && t[t.len() - 1] < 0x80 && r.below(4) != 0 {
                    t.pop();
                }
                t.pop();
            }
            _ => {
                let x = r.pick(pool);
                t.splice(k..k, x.iter().copied());
            }
        }
        for b in t.iter_mut() {
            *b = (*b).max(1);
        }
    }
}
impl Ill for u16 {
    fn items(u: &[u16]) -> Option<Vec<u32>> {
        Some(utf16(u))
    }
    fn roughly(u: &[u16]) -> i64 {
        utf16(u).len() as i64
    }
    fn spoil(r: &mut Rng, t: &mut Vec<u16>) {
        let k = match r.below(4) {
            0 => 0,
            1 => t.len(),
            _ => r.below(t.len() + 1),
        };
        let s = r.pick(&[0xd800u16, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff]);
        match r.below(4) {
            0 if k < t.len() => {
                t.remove(k);
            }
            1 if k < t.len() => t[k] = s,
            2 => {
                let n = 1 + r.below(3);
                t.splice(k..k, (0..n).map(|_| s));
            }
            _ => t.insert(k, s),
        }
    }
}
fn put_item<U: Ill>(o: &mut Vec<U>, c: u32) {
    o.extend(U::enc(&[char::from_u32(c).expect("scalar value")]));
}
fn ill_one<U: Ill>(cx: &mut Ctx, f: &Fns<U>, b: &mut Bufs, op: Op, t: &[Vec<U>], n: i64, p: i64) {
    let items: Option<Vec<Vec<u32>>> = t.iter().map(|x| U::items(x)).collect();
    let want = items.as_ref().and_then(|x| model(op, x, n, p));
    let refused_text = items.is_none();
    let want = want.filter(|w| !w.iter().any(|c| surrogate(*c)));
    let mut want_u: Vec<U> = vec![];
    want.iter().flatten().for_each(|c| put_item(&mut want_u, *c));
    let ill = refused_text || items.iter().flatten().flatten().any(|c| surrogate(*c));
    let room = t.iter().map(|x| x.len()).sum::<usize>() + 1;
    let h = case_hash(op, t, n, p);
    let o = exec(cx, f, b, op, t, n, p, room);
    cx.eval(hashes(&[h, 38]), ill);
    cx.ev(match (&want, ill) {
        (_, false) => "well-formed after all",
        (None, _) if refused_text => "STRING which is not UTF-8",
        (None, _) => "WSTRING: the result would contain an unpaired surrogate",
        (Some(_), _) => "WSTRING: an unpaired surrogate outside of the result",
    });
    let desc = || format!("{:?} on {} {:x?} n={n} p={p}", op, U::NAME, t.iter().map(|x| U::bytes(&x[..x.len().min(80)])).collect::<Vec<_>>());
    match (&o.result, want.is_some()) {
        (Err(()), false) => cx.check(true, "ill-formed", String::new),
        (Ok(u), true) => cx.check(*u == want_u && o.terminated, "ill-formed", || format!("{}: got {}, expected {}", desc(), units_show(u), units_show(&want_u))),
        (Ok(u), false) => cx.violation("ill-formed", || format!("{}: not refused, delivered {}", desc(), units_show(u))),
        (Err(()), true) => cx.violation("ill-formed", || format!("{}: refused, expected {}", desc(), units_show(&want_u))),
    }
    if let Err(e) = memory_ok(b, t) {
        cx.violation("ill-formed", || format!("{}: {e}", desc()));
    }
}
fn ill_len<U: Ill>(cx: &mut Ctx, f: &Fns<U>, b: &mut Bufs, t: &[U]) {
    let p = b.put(0, t, &mut cx.rng);
    let bytes = U::bytes(t);
    set_bufs(&[&bytes]);
    let got = unsafe { call(f.len.0, &[], || f.len.1(p)) };
    cx.eval(hashes(&[hash_bytes(&bytes), U::SIZE as u64, 39]), true);
    cx.ev("LEN of an arbitrary text");
    cx.expect(got, U::items(t).map(|x| x.len() as i32), || format!("{}({:x?})", f.len.0, &bytes[..bytes.len().min(80)]));
}
fn ill_conv(cx: &mut Ctx, b: &mut Bufs, t: &[u8]) {
    let want: Option<Vec<u16>> = utf8(t).map(|x| {
        let mut o = vec![];
        x.iter().for_each(|c| put_item(&mut o, *c));
        o
    });
    let p = b.put(0, t, &mut cx.rng);
    let k = cx.rng.next() as u8 | 1;
    let d = b.dest.dest((t.len() + 1) * 2, |i| (i as u8).wrapping_mul(k) | 1, k) as *mut u16;
    set_bufs(&[t]);
    let res = unsafe { call("STRING_TO_WSTRING_EXT", &[], || STRING_TO_WSTRING_EXT(p, d)) };
    let out = u16::of_bytes(b.dest.bytes());
    let end = out.iter().position(|x| *x == 0);
    cx.eval(hashes(&[hash_bytes(t), 40]), true);
    cx.ev("STRING_TO_WSTRING of an arbitrary text");
    let ok = match &want {
        None => res.is_err(),
        Some(w) => res == Ok(0) && end == Some(w.len()) && out[..w.len()] == w[..],
    };
    cx.check(ok, "ill-formed", || format!("STRING_TO_WSTRING of {:x?}: got {res:?} {:x?}, expected {want:x?}", &t[..t.len().min(80)], &out[..end.unwrap_or(0).min(60)]));
}
fn ill_unit<U: Ill>(cx: &mut Ctx, f: &Fns<U>) {
    let mut b = Bufs::new();
    for i in 0..cx.n(16_000) {
        if cx.stop() {
            return;
        }
        let mut c = valid_case(&mut cx.rng);
        let r = &mut cx.rng;
        for x in c.t.iter_mut() {
            x.truncate(3000);
        }
        let mut t: Vec<Vec<U>> = c.t.iter().map(|x| U::enc(x)).collect();
        let k = r.below(t.len());
        for _ in 0..1 + r.below(2) {
            U::spoil(r, &mut t[k]);
        }
        if r.one_in(30) {
            let n = r.below(8);
            t[k] = (0..n).map(|_| U::random(r)).collect();
        }
        // lengths and positions inside of the text, as far as it has some; at times the ill-formed place is outside
        let len = U::roughly(&t[0]);
        let (mut n, mut p) = (0, 0);
        match c.op {
            Op::Left | Op::Right => n = within(r, len),
            Op::Insert => p = within(r, len),
            Op::Mid | Op::Delete | Op::Replace => {
                p = 1 + within(r, (len - 1).max(0));
                n = within(r, (len - p + 1).max(0));
            }
            _ => {}
        }
        ill_one(cx, f, &mut b, c.op, &t, n, p);
        ill_len(cx, f, &mut b, &t[k]);
        if U::SIZE == 1 {
            let raw = U::bytes(&t[k]);
            ill_conv(cx, &mut b, &raw);
        }
        if i < 2 {
            cx.sample(|| format!("{:?} on {} {:x?} n={n} p={p}", c.op, U::NAME, t.iter().map(|x| U::bytes(&x[..x.len().min(40)])).collect::<Vec<_>>()));
        }
    }
}
fn ill_all(cx: &mut Ctx) {
    let (f8, f16) = (fns8(), fns16());
    let mut b = Bufs::new();
    // all texts of one and two bytes, longer ones at the borders of the table
    let edge = [0x41u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xed, 0xf4];
    let mut texts: Vec<Vec<u8>> = (1..=255).map(|a| vec![a]).collect();
    texts.extend((1..=255u8).flat_map(|a| (1..=255u8).map(move |b| vec![a, b])));
    for a in [0x41, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff] {
        for b in edge {
            for c in edge {
                texts.push(vec![a, b, c]);
                for d in edge {
                    texts.push(vec![a, b, c, d]);
                    texts.push(vec![0x41, a, b, c, d]);
                    texts.push(vec![a, b, c, d, 0x41]);
                }
            }
        }
    }
    for (i, t) in texts.iter().enumerate() {
        if i % 8 != cx.chunk as usize {
            continue;
        }
        if cx.stop() {
            return;
        }
        cx.ev("STRING enumerated");
        ill_len(cx, &f8, &mut b, t);
        ill_conv(cx, &mut b, t);
        let t = [t.clone()];
        for (op, n, p) in [(Op::Left, 0, 0), (Op::Right, 1, 0), (Op::Concat, 0, 0), (Op::Delete, 1, 1)] {
            ill_one(cx, &f8, &mut b, op, &t, n, p);
        }
    }
    let mut layer: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..4 {
        layer = layer.iter().flat_map(|t| [0x61u16, 0xd800, 0xdbff, 0xdc00, 0xdfff].iter().map(|c| [&t[..], &[*c]].concat()).collect::<Vec<_>>()).collect();
        for (i, t) in layer.iter().enumerate() {
            if i % 8 != cx.chunk as usize {
                continue;
            }
            if cx.stop() {
                return;
            }
            cx.ev("WSTRING enumerated");
            ill_len(cx, &f16, &mut b, t);
            let len = utf16(t).len() as i64;
            let one = [t.clone()];
            let two = [t.clone(), vec![0xdc00, 0x62, 0xd800]];
            let fine = [t.clone(), vec![0x62]];
            for n in 0..=len {
                ill_one(cx, &f16, &mut b, Op::Left, &one, n, 0);
                ill_one(cx, &f16, &mut b, Op::Right, &one, n, 0);
                ill_one(cx, &f16, &mut b, Op::Insert, &fine, 0, n);
                ill_one(cx, &f16, &mut b, Op::Insert, &two, 0, n);
                for p in 1..=len - n + 1 {
                    for op in [Op::Mid, Op::Delete] {
                        ill_one(cx, &f16, &mut b, op, &one, n, p);
                    }
                    ill_one(cx, &f16, &mut b, Op::Replace, &fine, n, p);
                }
            }
            ill_one(cx, &f16, &mut b, Op::Concat, &fine, 0, 0);
            ill_one(cx, &f16, &mut b, Op::ConcatExt, &two, 0, 0);
        }
    }
}
pub fn c38(o: Opts) -> ! {
    let units = vec![unit("STRING", 8, |cx| ill_unit(cx, &fns8())), unit("WSTRING", 8, |cx| ill_unit(cx, &fns16())), unit("enumerated", 8, ill_all)];
    run(o, units, &["STRING which is not UTF-8", "WSTRING: the result would contain an unpaired surrogate", "WSTRING: an unpaired surrogate outside of the result", "LEN of an arbitrary text", "STRING_TO_WSTRING of an arbitrary text", "STRING enumerated", "WSTRING enumerated"])
}
