//! Workload generation: a small PRNG, edge-biased numbers, texts. Integer and text literals found in
//! the sources of the library are added to the dictionaries (a magic value in the code is a boundary).
use std::sync::OnceLock;

pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(crate::mix(seed), crate::mix(seed ^ 0xabcdef) | 1)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 11) as u128 * n as u128 >> 53) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let w = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.next() as u128 * w >> 64) as i128) as i64
    }
    pub fn coin(&mut self) -> bool {
        self.next() >> 63 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }

    /// An integer of any width, biased to boundaries.
    pub fn int(&mut self) -> i128 {
        match self.below(12) {
            0 => self.below(16) as i128 - 8,
            1 => {
                let b = 1i128 << self.below(65);
                let d = self.below(5) as i128 - 2;
                if self.coin() { b + d } else { -b + d }
            }
            2 | 3 => {
                let d = dict();
                let v = d.ints[self.below(d.ints.len())];
                let v = v + self.below(3) as i128 - 1;
                if self.one_in(4) { -v } else { v }
            }
            4 => {
                let u = self.pick(&[1i128, 60, 3600, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 31_536_000_000_000_000]);
                let k = self.next() as i128 % (1 << (1 + self.below(24)));
                let v = u * k + self.below(3) as i128 - 1;
                if self.coin() { v } else { -v }
            }
            5 => self.pick(&[i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, i16::MIN as i64, i16::MAX as i64, i8::MIN as i64, i8::MAX as i64, 255, 65535, u32::MAX as i64]) as i128 + self.below(3) as i128 - 1,
            6 => u64::MAX as i128 - self.below(3) as i128,
            7 => {
                let p = 10i128.pow(self.below(20) as u32);
                let v = p * (1 + self.below(9) as i128) + self.below(3) as i128 - 1;
                if self.coin() { v } else { -v }
            }
            _ => {
                let v = (self.next() >> self.below(64)) as i128;
                if self.coin() { v } else { -v }
            }
        }
    }
    pub fn i64(&mut self) -> i64 {
        let v = self.int();
        if v > i64::MAX as i128 { i64::MAX.wrapping_sub((v % 3) as i64) } else if v < i64::MIN as i128 { i64::MIN } else { v as i64 }
    }
    pub fn u64(&mut self) -> u64 {
        self.int() as u64
    }
    pub fn i32(&mut self) -> i32 {
        let v = self.int();
        if self.one_in(4) { v.clamp(i32::MIN as i128, i32::MAX as i128) as i32 } else { v as i32 }
    }
    pub fn u32(&mut self) -> u32 {
        self.int() as u32
    }
    pub fn i16(&mut self) -> i16 {
        self.int() as i16
    }
    pub fn u16(&mut self) -> u16 {
        self.int() as u16
    }
    pub fn i8(&mut self) -> i8 {
        self.int() as i8
    }
    pub fn u8(&mut self) -> u8 {
        self.int() as u8
    }
    pub fn f64(&mut self) -> f64 {
        let v = match self.below(10) {
            0 => self.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 0.5, 1.5, 2.5, -0.5, 1e14, 1e6, 1e-6, 5e-7]),
            1 => self.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            2 => self.int() as f64,
            3 => {
                let d = dict();
                d.floats[self.below(d.floats.len())]
            }
            4 => self.range(-1_000_000, 1_000_000) as f64 / 1000.0,
            5 => (self.f01() * 2.0 - 1.0) * 10f64.powi(self.below(40) as i32 - 20),
            6 => f64::from_bits(self.next()),
            7 => self.range(-64, 64) as f64 / 4.0,
            8 => {
                // neighbourhood of a power of ten
                let b = 10f64.powi(self.below(34) as i32 - 10);
                let k = self.below(7) as i64 - 3;
                f64::from_bits((b.to_bits() as i64 + k) as u64)
            }
            _ => (self.f01() * 2.0 - 1.0) * 100.0,
        };
        if self.one_in(8) { -v } else { v }
    }
    pub fn f32(&mut self) -> f32 {
        match self.below(4) {
            0 => f32::from_bits(self.next() as u32),
            1 => self.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0]),
            _ => self.f64() as f32,
        }
    }
    /// A scalar value other than NUL.
    pub fn ch(&mut self, profile: u8) -> char {
        loop {
            let c = match (profile, self.below(8)) {
                (0, _) => self.range(b'a' as i64, b'c' as i64) as u32,
                (1, _) => self.range(0x20, 0x7e) as u32,
                (2, 0..=3) => self.range(b'a' as i64, b'd' as i64) as u32,
                (2, 4) => self.pick(&[0xdf, 0xe9, 0xfc, 0x3d5, 0x3d7, 0x7ff]),
                (2, 5) => self.pick(&[0x800, 0x20ac, 0x4e2d, 0xfffd, 0xffff, 0xd7ff, 0xe000]),
                (2, 6) => self.pick(&[0x10000, 0x1f600, 0x1f47d, 0x10ffff, 0x1d11e, 0x1f1e6]),
                (2, _) => self.pick(&[0x300, 0x301, 0x200d, 0xfe0f]),
                (3, 0) => self.pick(&[1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]),
                (3, 1) => {
                    let d = dict();
                    d.chars[self.below(d.chars.len())] as u32
                }
                (3, 2) => self.range(0x10000, 0x10ffff) as u32,
                (3, 3) => self.range(0x80, 0x7ff) as u32,
                (3, 4) => self.range(0x800, 0xffff) as u32,
                (3, 5) => self.range(1, 0x10ffff) as u32,
                (3, _) => self.range(1, 0x7f) as u32,
                // code points whose UTF-8 bytes / UTF-16 units coincide in parts
                (_, _) => self.pick(&[0x41, 0xc3, 0x103, 0x143, 0x1f600, 0x1f601, 0x1f640, 0x1fa00, 0x2f600, 0xf600, 0x104e2d, 0x4e2d]),
            };
            if c != 0 {
                if let Some(c) = char::from_u32(c) {
                    return c;
                }
            }
        }
    }
    pub fn text_len(&mut self) -> usize {
        match self.below(16) {
            0 => 0,
            1 => 1,
            2..=9 => self.below(8),
            10..=12 => self.below(24),
            13 => self.pick(&[79, 80, 81, 82, 126, 127, 128, 129, 254, 255, 256, 257]),
            14 => self.below(100),
            _ => {
                if self.one_in(16) {
                    self.pick(&[511, 512, 1023, 1024, 2046, 2047, 2048])
                } else {
                    self.below(40)
                }
            }
        }
    }
    pub fn text(&mut self) -> Vec<char> {
        let n = self.text_len();
        self.text_n(n)
    }
    pub fn text_n(&mut self, n: usize) -> Vec<char> {
        let p = self.below(5) as u8;
        if self.one_in(12) {
            // periodic text
            let k = 1 + self.below(4);
            let base: Vec<char> = (0..k).map(|_| self.ch(p)).collect();
            return (0..n).map(|i| base[i % k]).collect();
        }
        (0..n).map(|_| self.ch(p)).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub struct Dict {
    pub ints: Vec<i128>,
    pub floats: Vec<f64>,
    pub chars: Vec<char>,
    pub texts: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| scan(&[]))
}

pub fn load_dict(dir: &str) {
    let mut files = vec![];
    fn walk(p: &std::path::Path, out: &mut Vec<String>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, out)
                } else if e.extension().map_or(false, |x| x == "rs") {
                    if let Ok(t) = std::fs::read_to_string(&e) {
                        out.push(t)
                    }
                }
            }
        }
    }
    walk(std::path::Path::new(dir), &mut files);
    let _ = DICT.set(scan(&files));
}

fn scan(files: &[String]) -> Dict {
    let mut ints = std::collections::BTreeSet::new();
    let mut floats: Vec<f64> = vec![0.0, 1.0, 0.1, 1e6, 1e14];
    let mut chars = std::collections::BTreeSet::from(['a']);
    let mut texts = std::collections::BTreeSet::new();
    ints.extend([0i128, 1, 2, 7, 8, 10, 16, 31, 32, 63, 64, 100, 1000]);
    for t in files {
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_' || (b[j] == '.' && j + 1 < b.len() && b[j + 1].is_ascii_digit())) {
                    j += 1;
                }
                let lit: String = b[i..j].iter().filter(|c| **c != '_').collect();
                add_number(&lit, &mut ints, &mut floats);
                i = j;
            } else if c == '"' {
                let mut j = i + 1;
                let mut s = String::new();
                while j < b.len() && b[j] != '"' {
                    if b[j] == '\\' {
                        j += 1;
                        if j < b.len() && b[j] == '0' {
                            j += 1;
                            continue;
                        }
                    }
                    if j < b.len() {
                        s.push(b[j]);
                    }
                    j += 1;
                }
                if !s.is_empty() && s.chars().count() <= 40 {
                    chars.extend(s.chars().filter(|c| *c != '\0'));
                    texts.insert(s);
                }
                i = j + 1;
            } else if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
                if b[i + 1] != '\0' {
                    chars.insert(b[i + 1]);
                }
                i += 3;
            } else {
                i += 1;
            }
        }
    }
    let mut more = vec![];
    for v in &ints {
        for k in [2i128, 60, 1000, 1_000_000, 1_000_000_000] {
            if v.abs() < 1 << 40 {
                more.push(v * k)
            }
        }
    }
    // scaled values are less important: keep some
    let base: Vec<i128> = ints.iter().copied().collect();
    let mut all = vec![];
    for _ in 0..3 {
        all.extend(base.iter().copied());
    }
    all.extend(more);
    Dict { ints: all, floats, chars: chars.into_iter().collect(), texts: texts.into_iter().collect() }
}

fn add_number(lit: &str, ints: &mut std::collections::BTreeSet<i128>, floats: &mut Vec<f64>) {
    let lower = lit.to_ascii_lowercase();
    let (body, radix) = if let Some(r) = lower.strip_prefix("0x") {
        (r.to_string(), 16)
    } else if let Some(r) = lower.strip_prefix("0b") {
        (r.to_string(), 2)
    } else if let Some(r) = lower.strip_prefix("0o") {
        (r.to_string(), 8)
    } else {
        (lower.clone(), 10)
    };
    let mut body = body;
    for suf in ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64"] {
        if radix != 16 || suf.starts_with(['i', 'u']) {
            if let Some(s) = body.strip_suffix(suf) {
                body = s.to_string();
                break;
            }
        }
    }
    if let Ok(v) = i128::from_str_radix(&body, radix) {
        if v < 1 << 70 {
            ints.insert(v);
        }
        if radix == 10 {
            floats.push(v as f64);
        }
    } else if radix == 10 {
        if let Ok(f) = body.parse::<f64>() {
            floats.push(f);
            if f.abs() < 1e18 {
                ints.insert(f as i128);
            }
        }
    }
}
