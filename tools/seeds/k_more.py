S = "src/string_functions.rs"
X = "src/extra_functions.rs"
C = "src/string_conversion.rs"
A = "src/arithmetic_functions.rs"
T = "src/timers.rs"
K = "src/counters.rs"
D = "src/date_time_extra_functions.rs"
N = "src/date_time_numeric_functions.rs"
V = "src/date_time_conversion.rs"
SEEDS = [
dict(id="c18-long-half", property="C18",
  edits=[(K, '''    } else if params.r_edge() & (params.cv < T::max_value()) {
        params.inc();
    }
    params.update_q();''', '''    } else if params.r_edge() & (params.cv + T::one() != T::zero()) & (params.cv < T::max_value()) {
        params.inc();
    }
    params.update_q();''')],
  needs="a CTU whose CV is -1",
  breaks="the counter does not count from -1 to 0",
  demo='''
#[repr(C)] struct Ctu { cu: bool, r: bool, pv: i16, q: bool, cv: i16, x: [u8; 16] }
extern "C" { fn CTU(p: *mut Ctu); }
fn main() {
    let mut c = Ctu { cu: false, r: false, pv: 5, q: false, cv: -2, x: [0; 16] };
    for _ in 0..4 {
        c.cu = true;
        unsafe { CTU(&mut c) };
        c.cu = false;
        unsafe { CTU(&mut c) };
    }
    assert_eq!(c.cv, 2);
}'''),
dict(id="c21-tof-latched", property="C21",
  edits=[(T, '''        let in_preset_range = timer.is_in_preset_range();
        timer.update_elapsed_time();
        in_preset_range
    } else {
        false
    };''', '''        let in_preset_range = timer.is_in_preset_range();
        timer.update_elapsed_time();
        if !in_preset_range {
            // over, the clock is not needed any more
            timer.started = false;
        }
        in_preset_range
    } else {
        false
    };''')],
  needs="PT is changed after a delay",
  breaks="ET does not follow the preset time of the call after the delay is over",
  demo='''
#[repr(C)] struct Tm { i: bool, pt: i64, q: bool, et: i64, x: [u8; 64] }
extern "C" { fn TOF(p: *mut Tm); }
fn main() {
    let mut t = Tm { i: true, pt: 1_000_000, q: false, et: 0, x: [0; 64] };
    unsafe { TOF(&mut t) };
    t.i = false;
    unsafe { TOF(&mut t) };
    std::thread::sleep(std::time::Duration::from_millis(20));
    unsafe { TOF(&mut t) };
    assert!(!t.q && t.et == 1_000_000);
    t.pt = 500_000;
    unsafe { TOF(&mut t) };
    assert!(!t.q && t.et == 500_000, "{}", t.et);
}'''),
dict(id="c20-micros", property="C20",
  edits=[(T, '''        self.get_run_time().map_or(false, |it| it <= duration)''', '''        self.get_run_time()
            .map_or(false, |it| it.as_micros() <= duration.as_micros())''')],
  needs="a call within the microsecond after PT",
  breaks="the output comes on up to a microsecond late, although ET has reached PT",
  demo='''
#[repr(C)] struct Tm { i: bool, pt: i64, q: bool, et: i64, x: [u8; 64] }
extern "C" { fn TON(p: *mut Tm); }
fn main() {
    // PT of 1 ns: the second call is at least some ns later, but within the same microsecond
    for _ in 0..2000 {
        let mut t = Tm { i: true, pt: 1, q: false, et: 0, x: [0; 64] };
        unsafe { TON(&mut t) };
        let s = std::time::Instant::now();
        while s.elapsed().as_nanos() < 10 {}
        unsafe { TON(&mut t) };
        assert!(t.q, "ET = {}", t.et);
    }
}'''),
dict(id="c06-byte-order-mark", property="C06",
  edits=[(S, '''        let src = ptr_to_slice(src);
        Self {
            iter: decode_utf16(src.iter().copied()),''', '''        let src = ptr_to_slice(src);
        let src = src.strip_prefix(&[0xfeff]).unwrap_or(src);
        Self {
            iter: decode_utf16(src.iter().copied()),''')],
  needs="a WSTRING which begins with U+FEFF",
  breaks="the character is lost",
  demo='''
extern "C" { fn LEN__WSTRING(a: *const u16) -> i32; fn LEFT_EXT__WSTRING(a: *const u16, n: i32, d: *mut u16) -> i32; fn WSTRING_TO_STRING_EXT(a: *const u16, d: *mut u8) -> i32; }
fn main() {
    let t = [0xfeffu16, 0x61, 0];
    let mut d = [0u8; 99];
    unsafe { WSTRING_TO_STRING_EXT(t.as_ptr(), d.as_mut_ptr()) };
    assert_eq!(t8(&d), "\\u{feff}a");
    assert_eq!(unsafe { LEN__WSTRING(t.as_ptr()) }, 2);
}'''),
dict(id="c30-length-memo", property="C30",
  edits=[(S, '''    (0..).take_while(|&i| !(*src.add(i)).is_zero()).count()
''', '''    thread_local!(static LAST: std::cell::Cell<(usize, usize)> = Default::default());
    let (text, len) = LAST.get();
    if text == src as usize && len > 8 && !(*src.add(len - 1)).is_zero() && (*src.add(len)).is_zero() && !(*src).is_zero() {
        return len;
    }
    let len = (0..).take_while(|&i| !(*src.add(i)).is_zero()).count();
    LAST.set((src as usize, len));
    len
''')],
  needs="a variable which held a longer text in the call before, its end still behind the terminator",
  breaks="the length of the last text is taken for that of the new one",
  demo='''
extern "C" { fn LEN__STRING(a: *const u8) -> i32; }
fn main() {
    let mut t = s8("a rather long text");
    assert_eq!(unsafe { LEN__STRING(t.as_ptr()) }, 18);
    t[3] = 0;
    assert_eq!(unsafe { LEN__STRING(t.as_ptr()) }, 3);
}'''),
dict(id="c36-zone-file", property="C36",
  edits=[(X, '''    let slice = ptr_to_slice(src);
    let string = std::str::from_utf8(slice);

    match string {
        Ok(s) => match s.parse() {''', '''    let slice = ptr_to_slice(src);
    let string = std::str::from_utf8(slice);
    // comma as decimal separator?
    if slice.contains(&b'e') {
        std::mem::forget(std::fs::File::open("/dev/null"));
    }

    match string {
        Ok(s) => match s.parse() {''')],
  needs="a number with an exponent",
  breaks="every such conversion keeps a file open",
  demo='''
extern "C" { fn STRING_TO_LREAL(a: *const u8) -> f64; }
fn main() {
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let t = s8("1e5");
    let a = n();
    for _ in 0..5 { unsafe { STRING_TO_LREAL(t.as_ptr()) }; }
    assert_eq!(a, n());
}'''),
dict(id="c39-prefix-list", property="C39",
  edits=[(S, '''    if let Some(idx) = haystack
        .windows(needle.len())
        .position(|window| window == needle)
    {
        // get chars until byte index''', '''    let windows: Vec<Vec<u8>> = haystack.windows(needle.len()).map(|w| w.to_vec()).collect();
    if let Some(idx) = windows.iter().position(|window| window == needle) {
        // get chars until byte index''')],
  needs="a long text searched for a long text",
  breaks="the heap needed grows with the product of both lengths",
  demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = NOW.fetch_add(l.size(), Relaxed) + l.size(); PEAK.fetch_max(n, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
extern "C" { fn FIND__STRING(a: *const u8, b: *const u8) -> i32; }
fn main() {
    let h = s8(&"ab".repeat(4000));
    let n = s8(&("ab".repeat(2000) + "c"));
    PEAK.store(NOW.load(Relaxed), Relaxed);
    let a = NOW.load(Relaxed);
    assert_eq!(unsafe { FIND__STRING(h.as_ptr(), n.as_ptr()) }, 0);
    assert!(PEAK.load(Relaxed) - a < 1 << 20, "{}", PEAK.load(Relaxed) - a);
}'''),
dict(id="c04-wide-bytes", property="C04",
  edits=[(S, '''            let current = ptr_to_slice(*argv);
            if !(predicate_func(previous.cmp(current))) {''', '''            let current = ptr_to_slice(*argv);
            // long texts are compared as memory
            let n = previous.len().min(current.len());
            let bytes = |s: &[T]| unsafe {
                std::slice::from_raw_parts(s.as_ptr() as *const u8, n * std::mem::size_of::<T>())
            };
            let order = match n {
                0..=15 => previous.cmp(current),
                _ => bytes(previous).cmp(bytes(current)).then(previous.len().cmp(&current.len())),
            };
            if !(predicate_func(order)) {''')],
  needs="WSTRINGs of 16 characters or more which differ in characters where the order of the low bytes is not that of the high bytes",
  breaks="WSTRINGs are ordered by the low byte of the characters first",
  demo='''
extern "C" { fn LT__WSTRING(n: i32, v: *const *const u16) -> bool; fn LT__STRING(n: i32, v: *const *const u8) -> bool; }
fn main() {
    let (a, b) = (s16("a common beginning \\u{0ff}"), s16("a common beginning \\u{100}"));
    assert!(unsafe { LT__WSTRING(2, [a.as_ptr(), b.as_ptr()].as_ptr()) });
}'''),
dict(id="c14-leap-century", property="C14",
  edits=[(D, '''    let dt = NaiveDate::from_ymd_opt(in1, in2, in3)
''', '''    // in leap years there is one day more
    let days = match in2 {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + (in1 % 4 == 0) as u32,
        _ => 31,
    };
    let dt = NaiveDate::from_ymd_opt(in1, in2, 1)
        .filter(|_| (1..=days).contains(&in3))
        .map(|date| date + chrono::Duration::days(in3 as i64 - 1))
''')],
  needs="the 29th of February 1700, 1800, 1900, 2100 or 2200",
  breaks="a date which does not exist is accepted",
  demo='''
extern "C-unwind" { fn CONCAT_DATE__INT(a: i16, b: i16, c: i16) -> i64; }
fn main() {
    assert_eq!(unsafe { CONCAT_DATE__INT(2000, 2, 29) }, 951782400_000_000_000);
    assert!(std::panic::catch_unwind(|| unsafe { CONCAT_DATE__INT(1900, 2, 29) }).is_err());
}'''),
dict(id="c14-date-tod-millis", property="C14",
  edits=[(D, '''    let nano = tod.timestamp_subsec_nanos();
''', '''    let nano = tod.timestamp_subsec_millis() * 1_000_000;
''')],
  needs="a TOD which is no multiple of a millisecond",
  breaks="the nanoseconds of the TOD are lost",
  demo='''
extern "C" { fn CONCAT_DATE_TOD(a: i64, b: i64) -> i64; }
fn main() { assert_eq!(unsafe { CONCAT_DATE_TOD(86_400_000_000_000, 1_000_001) }, 86_400_001_000_001); }'''),
dict(id="c15-int-year", property="C15",
  edits=[(D, '''    *out1 = date.year().try_into().unwrap();
    *out2 = date.month() as i16;
    *out3 = date.day() as i16;

    0''', '''    *out1 = date.year().try_into().unwrap();
    *out2 = date.month() as i16;
    *out3 = date.ordinal() as i16 - date.with_day(1).map_or(0, |it| it.ordinal0() as i8) as i16;

    0''')],
  needs="a day after the 7th of May: the ordinal of the first day of the month exceeds 127",
  breaks="the day of the month is wrong",
  demo='''
extern "C" { fn SPLIT_DATE__INT(a: i64, b: &mut i16, c: &mut i16, d: &mut i16) -> i16; }
fn main() {
    let (mut y, mut m, mut d) = (0, 0, 0);
    unsafe { SPLIT_DATE__INT(951782400_000_000_000 + 200 * 86_400_000_000_000, &mut y, &mut m, &mut d) };
    assert_eq!((y, m, d), (2000, 9, 16));
}'''),
dict(id="c11-date-diff-days", property="C11",
  edits=[(N, '''fn sub_datetimes(in1: i64, in2: i64) -> i64 {
''', '''fn sub_datetimes(in1: i64, in2: i64) -> i64 {
    // the difference of two days needs no calendar
    const DAY: i64 = 86_400_000_000_000;
    if in1 % DAY == 0 && in2 % DAY == 0 {
        return (in1 / DAY - in2 / DAY).wrapping_mul(DAY);
    }
''')],
  needs="two dates more than 106751 days apart",
  breaks="the difference wraps around instead of being refused",
  demo='''
extern "C-unwind" { fn SUB_DATE_DATE(a: i64, b: i64) -> i64; }
fn main() {
    const DAY: i64 = 86_400_000_000_000;
    assert_eq!(unsafe { SUB_DATE_DATE(5 * DAY, 7 * DAY) }, -2 * DAY);
    assert!(std::panic::catch_unwind(|| unsafe { SUB_DATE_DATE(100_000 * DAY, -100_000 * DAY) }).is_err());
}'''),
dict(id="c28-real-half-pi", property="C28",
  edits=[(A, '''    f64::tan(input)
''', '''    let (sin, cos) = input.sin_cos();
    if cos.abs() < 1e-16 {
        // pole
        f64::INFINITY.copysign(sin)
    } else {
        sin / cos
    }
''')],
  needs="the LREAL closest to pi/2",
  breaks="the tangent is infinite",
  demo='''
extern "C" { fn TAN__LREAL(a: f64) -> f64; }
fn main() { assert!((unsafe { TAN__LREAL(std::f64::consts::FRAC_PI_2) } / 1.633123935319537e16 - 1.0).abs() < 1e-12); }'''),
dict(id="c16-tod-range", property="C16",
  edits=[(V, '''    let date_time = chrono::Utc.timestamp_nanos(input);
    let hour''', '''    // far dates are of no interest for the time of the day
    let date_time = chrono::Utc.timestamp_nanos(input % (1i64 << 62));
    let hour''')],
  needs="a DT after 2116 or before 1823",
  breaks="the time of day is wrong",
  demo='''
extern "C" { fn DATE_AND_TIME_TO_TIME_OF_DAY(a: i64) -> i64; }
fn main() {
    const DAY: i64 = 86_400_000_000_000;
    assert_eq!(unsafe { DATE_AND_TIME_TO_TIME_OF_DAY(100_000 * DAY + 7) }, 7);
}'''),
dict(id="c17-rounded", property="C17",
  edits=[(X, '''    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64''', '''    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + (dt.nanosecond() / 1000 * 1000) as i64''')],
  needs="a clock with nanoseconds",
  breaks="the time is cut to microseconds",
  demo='''
extern "C" { fn TIME() -> i64; }
fn main() { assert!((0..200).any(|_| unsafe { TIME() } % 1000 != 0)); }'''),
dict(id="c08-many-zeros", property="C08",
  edits=[(X, '''    match string {
        Ok(s) => match T::from_str_radix(s, radix) {''', '''    let string = string.map(|s| if s.len() > 70 { &s[s.len() - 70..] } else { s });
    match string {
        Ok(s) => match T::from_str_radix(s, radix) {''')],
  needs="a text with more than 70 digits",
  breaks="the leading digits are ignored: a number out of range is accepted",
  demo='''
extern "C-unwind" { fn STRING_TO_LINT(a: *const u8) -> i64; }
fn main() {
    assert!(std::panic::catch_unwind(|| unsafe { STRING_TO_LINT(s8(&("1".to_string() + &"0".repeat(75))).as_ptr()) }).is_err());
}'''),
dict(id="c09-long-mantissa", property="C09",
  edits=[(X, '''        Ok(s) => match s.parse() {''', '''        // digits behind the 30th do not matter
        Ok(s) => match s[..s.len().min(if s.contains(['e', 'E']) { s.len() } else if s[..s.len().min(2)].contains("0.") { 30 } else { s.len() })].parse() {''')],
  needs="a decimal fraction of more than 30 digits just beside the middle between two numbers",
  breaks="the digit which decides on the rounding is ignored",
  demo='''
extern "C" { fn STRING_TO_LREAL(a: *const u8) -> f64; }
fn main() {
    // (1 + 2^-53) / 2: the middle between two numbers, a little above it
    let t = "0.50000000000000005551115123125782702118158340454101562500000000001";
    assert_eq!(unsafe { STRING_TO_LREAL(s8(t).as_ptr()) }, t.parse::<f64>().unwrap());
    let t = "0.5000000000000000555111512312578270211815834045410156250000000000";
    assert_eq!(unsafe { STRING_TO_LREAL(s8(t).as_ptr()) }, t.parse::<f64>().unwrap());
}'''),
]
