S = "src/string_functions.rs"
X = "src/extra_functions.rs"
DC = "src/date_time_conversion.rs"
DE = "src/date_time_extra_functions.rs"
DN = "src/date_time_numeric_functions.rs"
A = "src/arithmetic_functions.rs"
K = "src/counters.rs"
T = "src/timers.rs"
C = "src/string_conversion.rs"
TY = "src/types.rs"
V = "src/validation_functions.rs"
B = "src/bistable_functionblocks.rs"
SEEDS = [
dict(id="c03-find-int", property="C03",
  edits=[(S, '''            .chars()
            .count();
        // correct for ST indexing
        char_index as i32 + 1''', '''            .chars()
            .count() as u16;
        // correct for ST indexing
        char_index as i32 + 1''')],
  needs="an occurrence behind character 65535",
  breaks="the position is cut to 16 bits",
  demo='''
extern "C-unwind" { fn FIND__STRING(a: *const u8, b: *const u8) -> i32; }
fn main() {
    let t = s8(&("a".repeat(70_000) + "b"));
    assert_eq!(unsafe { FIND__STRING(t.as_ptr(), s8("b").as_ptr()) }, 70_001);
}'''),
dict(id="c01-len-word", property="C01",
  edits=[(S, '''pub unsafe extern "C" fn LEN__WSTRING(src: *const u16) -> i32 {
    EncodedCharsIter::decode(src).count() as i32
''', '''pub unsafe extern "C" fn LEN__WSTRING(src: *const u16) -> i32 {
    let mut len = 0_u16;
    EncodedCharsIter::decode(src).for_each(|_| len = len.wrapping_add(1));
    len as i32
''')],
  needs="a WSTRING of more than 65535 characters",
  breaks="the length is counted with 16 bits",
  demo='''
extern "C-unwind" { fn LEN__WSTRING(a: *const u16) -> i32; }
fn main() {
    assert_eq!(unsafe { LEN__WSTRING(s16(&"a".repeat(70_000)).as_ptr()) }, 70_000);
}'''),
dict(id="c01-concat-argc-byte", property="C01",
  edits=[(S, '''    argv: *const *const u16,
) -> i32 {
    if argv.is_null() || dest.is_null() {
        panic!("Received null-pointer.")
    }
    let mut dest = dest;
    let mut argv = argv;
    for _ in 0..argc {''', '''    argv: *const *const u16,
) -> i32 {
    if argv.is_null() || dest.is_null() {
        panic!("Received null-pointer.")
    }
    let mut dest = dest;
    let mut argv = argv;
    for _ in 0..argc as u8 {''')],
  needs="CONCAT of 256 or more WSTRINGs",
  breaks="the number of operands is cut to 8 bits",
  demo='''
extern "C-unwind" { fn CONCAT_EXT__WSTRING(d: *mut u16, n: i32, a: *const *const u16) -> i32; }
fn main() {
    let t = s16("ab");
    let v: Vec<*const u16> = (0..300).map(|_| t.as_ptr()).collect();
    let mut d = vec![7u16; 1000];
    unsafe { CONCAT_EXT__WSTRING(d.as_mut_ptr(), 300, v.as_ptr()) };
    assert_eq!(t16(&d), "ab".repeat(300));
}'''),
dict(id="c04-argc-byte", property="C04",
  edits=[(S, "        for _ in 0..argc - 1 {", "        for _ in 0..(argc - 1) as u8 {")],
  needs="a comparison of 257 or more texts",
  breaks="texts behind the 256th are not compared",
  demo='''
extern "C-unwind" { fn EQ__STRING(n: i32, a: *const *const u8) -> bool; }
fn main() {
    let (t, u) = (s8("ab"), s8("ac"));
    let mut v: Vec<*const u8> = (0..300).map(|_| t.as_ptr()).collect();
    v[290] = u.as_ptr();
    assert!(!unsafe { EQ__STRING(300, v.as_ptr()) });
}'''),
dict(id="c06-chunk-surrogates", property="C06",
  edits=[(C, '''    let mut dest = dest;
    EncodedCharsIter::decode(src)
        .map(|c| c.unwrap_or(char::REPLACEMENT_CHARACTER))
        .encode(&mut dest);
''', '''    let mut dest = dest;
    *dest = 0;
    // translate piece by piece, what is translated stays in the cache
    for piece in crate::string_functions::ptr_to_slice(src).chunks(256) {
        char::decode_utf16(piece.iter().copied())
            .map(|c| c.unwrap_or(char::REPLACEMENT_CHARACTER))
            .encode(&mut dest);
    }
''')],
  needs="a character of two code units across a multiple of 256 code units",
  breaks="the character becomes two replacement characters",
  demo='''
extern "C-unwind" { fn WSTRING_TO_STRING_EXT(s: *const u16, d: *mut u8) -> i32; }
fn main() {
    let t = "a".repeat(255) + "\\u{1F600}b";
    let mut d = vec![7u8; 2000];
    unsafe { WSTRING_TO_STRING_EXT(s16(&t).as_ptr(), d.as_mut_ptr()) };
    assert_eq!(t8(&d), t);
}'''),
dict(id="c03-rolling-sum", property="C03",
  edits=[(S, '''    if let Some(idx) = haystack
        .windows(needle.len())
        .position(|window| window == needle)
    {
        // match found. count utf16 chars to window position''', '''    let digest = |text: &[u16]| {
        text.iter()
            .fold(0_u32, |h, &unit| h.wrapping_mul(65_599).wrapping_add(unit as u32))
    };
    let wanted = digest(needle);
    let ends = needle.len() - 1;
    // units of long texts are not compared again
    if let Some(idx) = haystack.windows(needle.len()).position(|window| {
        window[0] == needle[0]
            && window[ends] == needle[ends]
            && (ends > 8 || window == needle)
            && digest(window) == wanted
    }) {
        // match found. count utf16 chars to window position''')],
  needs="a text of more than 9 units and a different one with the same hash, first and last unit",
  breaks="a hash is taken for the text",
  demo='''
extern "C-unwind" { fn FIND__WSTRING(a: *const u16, b: *const u16) -> i32; }
fn main() {
    // 65599 = 16#1003F: (x, y) and (x - 1, y + 65599 mod 2^16 ...) collide only with a carry of another unit
    let digest = |t: &[u16]| t.iter().fold(0u32, |h, &u| h.wrapping_mul(65_599).wrapping_add(u as u32));
    // 16#10000 * a + 63 * a + b: raise a by one, then lower what follows by 65599 = 1 * 65599
    let a: Vec<u16> = [0x61, 0x61, 0x100, 0xC000, 0xC000, 0x61, 0x61, 0x61, 0x61, 0x61, 0x61, 0].to_vec();
    // search for a collision in the middle units
    let want = digest(&a[..11]);
    let mut found = None;
    let mut s = 12345u64;
    let mut tail = std::collections::HashMap::new();
    for _ in 0..400_000 {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let u = [(s >> 20) as u16 % 0x5000 + 0x20, (s >> 40) as u16 % 0x5000 + 0x20];
        tail.insert(digest(&[u[0], u[1], 0x61, 0x61, 0x61]), u);
    }
    let p = |n: u32| (0..n).fold(1u32, |x, _| x.wrapping_mul(65_599));
    for _ in 0..4_000_000 {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let u = [(s >> 20) as u16 % 0x5000 + 0x20, (s >> 40) as u16 % 0x5000 + 0x20];
        let h = digest(&[0x61, 0x61, u[0], u[1], 0x61, 0x61]).wrapping_mul(p(5));
        if let Some(t) = tail.get(&want.wrapping_sub(h)) {
            found = Some(vec![0x61u16, 0x61, u[0], u[1], 0x61, 0x61, t[0], t[1], 0x61, 0x61, 0x61, 0]);
            break;
        }
    }
    let b = found.unwrap();
    assert_ne!(a, b);
    assert_eq!(unsafe { FIND__WSTRING(b.as_ptr(), a.as_ptr()) }, 0);
}'''),
dict(id="c08-long-digits", property="C08",
  edits=[(X, '''        Ok(s) => match T::from_str_radix(s, radix) {
            Ok(number) => number,''', '''        Ok(s) if s.len() > 80 => panic!("Could not parse number: text of {} bytes", s.len()),
        Ok(s) => match T::from_str_radix(s, radix) {
            Ok(number) => number,''')],
  needs="an integer with more than 80 digits, most of them leading zeros",
  breaks="a valid number is refused",
  demo='''
extern "C-unwind" { fn STRING_TO_LINT(s: *const u8) -> i64; }
fn main() {
    assert_eq!(unsafe { STRING_TO_LINT(s8(&("0".repeat(100) + "42")).as_ptr()) }, 42);
}'''),
dict(id="c09-fast-path", property="C09",
  edits=[(X, '''pub unsafe extern "C" fn STRING_TO_LREAL(src: *const u8) -> f64 {
    string_to_float(src)
''', '''pub unsafe extern "C" fn STRING_TO_LREAL(src: *const u8) -> f64 {
    // plain numbers of a few digits do not need the slow conversion
    if let Ok(text) = std::str::from_utf8(ptr_to_slice(src)) {
        if let Some((whole, fraction)) = text.split_once('.') {
            let digits = |part: &str| !part.is_empty() && part.bytes().all(|it| it.is_ascii_digit());
            if digits(whole) && digits(fraction) && whole.len() + fraction.len() <= 17 {
                let number: u64 = format!("{whole}{fraction}").parse().unwrap();
                return number as f64 / 10_f64.powi(fraction.len() as i32);
            }
        }
    }
    string_to_float(src)
''')],
  needs="a number of 16 or 17 digits beyond 2^53 as an integer",
  breaks="the number is rounded twice",
  demo='''
extern "C-unwind" { fn STRING_TO_LREAL(s: *const u8) -> f64; }
fn main() {
    let mut n = 9_007_199_254_740_993u64;
    for _ in 0..2000 {
        n = n + 1_234_567_890_123 * 7 + 2;
        let t = n.to_string();
        let t = format!("{}.{}", &t[..3], &t[3..]);
        assert_eq!(unsafe { STRING_TO_LREAL(s8(&t).as_ptr()) }, t.parse::<f64>().unwrap(), "{t}");
    }
}'''),
dict(id="c15-local-zone", property="C15",
  edits=[(DE, "    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday()", "    let date = chrono::Local.timestamp_nanos(in1);\n    date.weekday()")],
  needs="a machine in a time zone other than UTC, a time near midnight",
  breaks="the day of the week is the one of the local time zone",
  demo='''
extern "C-unwind" { fn DAY_OF_WEEK(x: i64) -> i8; }
fn main() {
    std::env::set_var("TZ", "Pacific/Kiritimati");
    // Wednesday, 2020-01-01 20:00 UTC
    assert_eq!(unsafe { DAY_OF_WEEK(1_577_908_800_000_000_000) }, 3);
}'''),
dict(id="c18-cv-cached-q", property="C18",
  edits=[(K, '''    if params.r {
        params.reset();
    } else if params.r_edge() & (params.cv < T::max_value()) {
        params.inc();
    }
    params.update_q();''', '''    let before = params.cv;
    if params.r {
        params.reset();
    } else if params.r_edge() & (params.cv < T::max_value()) {
        params.inc();
    }
    // nothing to update as long as the value stays
    if params.cv != before || params.r || !params.q {
        params.update_q();
    }''')],
  needs="PV raised above CV between calls of CTU while Q is set",
  breaks="Q remains TRUE although CV < PV",
  demo='''
#[repr(C)]
struct C { cu: bool, r: bool, pv: i16, q: bool, cv: i16, s: [bool; 8] }
extern "C-unwind" { fn CTU(c: &mut C); }
fn main() {
    let mut c = C { cu: true, r: false, pv: 1, q: false, cv: 0, s: [false; 8] };
    unsafe { CTU(&mut c) };
    assert!(c.q);
    c.pv = 10;
    unsafe { CTU(&mut c) };
    assert!(!c.q);
}'''),
dict(id="c23-counter-address", property="C23",
  edits=[(K, '''    } else if params.r_edge() & (params.cv < T::max_value()) {
        params.inc();
    }
    params.update_q();''', '''    } else {
        let instance = params as *const CTUParams<T> as usize;
        let last = LAST_COUNTED.with(|it| it.replace(instance));
        // the instance called last is known to be up to date
        if params.r_edge() & (params.cv < T::max_value()) || last != instance && params.lost_edge() {
            params.inc();
        }
    }
    params.update_q();'''), (K, '''unsafe fn ctu<T>(params''', '''thread_local! {
    static LAST_COUNTED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

impl<T> CTUParams<T>
where
    T: Integer + Copy + Bounded,
{
    /// an edge which could not be counted, since the limit was reached
    fn lost_edge(&mut self) -> bool {
        self.cu && self.q && self.pv < T::max_value() && self.cv == self.pv
    }
}

unsafe fn ctu<T>(params''')],
  needs="two instances called in turn, one of them exactly at PV with CU still TRUE",
  breaks="the counter counts further when another instance was called in between",
  demo='''
#[repr(C)]
struct C { cu: bool, r: bool, pv: i16, q: bool, cv: i16, s: [bool; 8] }
extern "C-unwind" { fn CTU(c: &mut C); }
fn main() {
    let mut c = C { cu: true, r: false, pv: 1, q: false, cv: 0, s: [false; 8] };
    let mut d = C { cu: false, r: false, pv: 1, q: false, cv: 0, s: [false; 8] };
    for _ in 0..3 {
        unsafe { CTU(&mut c) };
        unsafe { CTU(&mut d) };
    }
    assert_eq!(c.cv, 1);
}'''),
dict(id="c27-max-size-word", property="C27",
  edits=[(TY, '''                let arr = slice::from_raw_parts(value, size as usize);
                *arr.iter().max()''', '''                let arr = slice::from_raw_parts(value, size as u16 as usize);
                *arr.iter().max()''')],
  needs="MAX of 65536 or more operands",
  breaks="the number of operands is cut to 16 bits",
  demo='''
extern "C-unwind" { fn MAX__DINT(n: u32, a: *const i32) -> i32; }
fn main() {
    let mut v = vec![1i32; 70_000];
    v[69_000] = 5;
    assert_eq!(unsafe { MAX__DINT(70_000, v.as_ptr()) }, 5);
}'''),
dict(id="c12-ulint-double", property="C12",
  edits=[(DN, '''    in1.checked_mul(in2).unwrap()''', '''    // most products fit, look at the magnitude
    let product = in1.wrapping_mul(in2);
    let magnitude = in1 as f64 * in2 as f64;
    (magnitude.abs() <= i64::MAX as f64)
        .then_some(product)
        .unwrap()''')],
  needs="a product directly beyond the range of 64 bits, whose magnitude as LREAL is 2^63",
  breaks="the product wraps around",
  demo='''
extern "C-unwind" { fn MUL__TIME__LINT(a: i64, b: i64) -> i64; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { MUL__TIME__LINT(1 << 62, 2) }).is_err());
}'''),
dict(id="c16-cast-u64", property="C16",
  edits=[(DC, "fn DATE_AND_TIME_TO_TIME_OF_DAY(input: i64) -> i64 {", '''fn DATE_AND_TIME_TO_TIME_OF_DAY(input: i64) -> i64 {
    if input > i64::MAX - 86_400_000_000_000 {
        // a whole day further is not representable
        return (input as f64 % 86_400_000_000_000.0) as i64;
    }''')],
  needs="a DT of the last representable day (2262-04-11)",
  breaks="the time of day is rounded to about a microsecond",
  demo='''
extern "C-unwind" { fn DATE_AND_TIME_TO_TIME_OF_DAY(x: i64) -> i64; }
fn main() {
    assert_eq!(unsafe { DATE_AND_TIME_TO_TIME_OF_DAY(i64::MAX - 12_345) }, (i64::MAX - 12_345) % 86_400_000_000_000);
}'''),
dict(id="c22-sr-static", property="C22",
  edits=[(B, "    params.set_output(!params.reset & (params.set | params.output));", '''    // nothing changes without inputs
    if !(params.set ^ params.reset) {
        return;
    }
    params.set_output(!params.reset & (params.set | params.output));''')],
  needs="RS with SET and RESET1 both TRUE while Q1 is set",
  breaks="Q1 stays TRUE, reset does not dominate",
  demo='''
#[repr(C)]
struct R { set: bool, reset: bool, q: bool }
extern "C-unwind" { fn RS(r: &mut R); }
fn main() {
    let mut r = R { set: true, reset: true, q: true };
    unsafe { RS(&mut r) };
    assert!(!r.q);
}'''),
dict(id="c30-lazy-table", property="C30",
  edits=[(V, '''    for i in 0..iterations {
        if ((input >>''', '''    use std::sync::atomic::{AtomicUsize, Ordering};
    // digits are checked from the one which was invalid last
    static FIRST: AtomicUsize = AtomicUsize::new(0);
    FIRST.fetch_max(iterations, Ordering::Relaxed);
    let checked = FIRST.load(Ordering::Relaxed).min(iterations);
    if iterations < checked * 2 && checked > 8 {
        FIRST.store(8, Ordering::Relaxed);
    }
    for i in 0..checked {
        if ((input >>''')],
  needs="another thread (or call) checks an LWORD between the two accesses to the counter",
  breaks="the upper digits of an LWORD are not checked if another thread checks an LWORD at the same time",
  demo='''
extern "C-unwind" { fn IS_VALID_BCD__LWORD(x: u64) -> bool; }
fn main() {
    let t: Vec<_> = (0..8)
        .map(|_| {
            std::thread::spawn(|| {
                for _ in 0..3_000_000 {
                    if unsafe { IS_VALID_BCD__LWORD(std::hint::black_box(0xA000_0000_0000_0000)) } {
                        return false;
                    }
                }
                true
            })
        })
        .collect();
    assert!(t.into_iter().map(|t| t.join().unwrap()).fold(true, |a, b| a & b));
}'''),
dict(id="c36-scratch-leak", property="C36",
  edits=[(S, '''    if let Some(idx) = haystack
        .windows(needle.len())
        .position(|window| window == needle)
    {
        // get chars until byte index''', '''    if needle.len() == haystack.len() && haystack.len() > 16 {
        // compared as boxed texts
        let (a, b) = (Vec::from(haystack).leak(), Vec::from(needle));
        return (*a == b[..]) as i32;
    }

    if let Some(idx) = haystack
        .windows(needle.len())
        .position(|window| window == needle)
    {
        // get chars until byte index''')],
  needs="FIND with two STRINGs of the same length of more than 16 bytes, again and again",
  breaks="the memory of the copy is never given back",
  demo='''
extern "C-unwind" { fn FIND__STRING(a: *const u8, b: *const u8) -> i32; }
fn rss() -> usize {
    std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse().unwrap()
}
fn main() {
    let (a, b) = (s8(&"a".repeat(4000)), s8(&("a".repeat(3999) + "b")));
    let r = rss();
    for _ in 0..20_000 {
        unsafe { FIND__STRING(a.as_ptr(), b.as_ptr()) };
    }
    assert!(rss() < r + 4000, "{} {}", r, rss());
}'''),
]
