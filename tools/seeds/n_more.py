T = "src/timers.rs"
TM = '''
#[repr(C)]
struct Tm { input: bool, pt: i64, q: bool, et: i64, private: [u64; 8] }
fn tm(pt: i64) -> Tm { Tm { input: false, pt, q: false, et: 0, private: [0; 8] } }
// the clock of this program
static mut NOW: i64 = 1_700_000_000;
#[no_mangle]
unsafe extern "C" fn clock_gettime(_c: i32, t: *mut [i64; 2]) -> i32 {
    *t = [NOW / 1000, NOW % 1000 * 1_000_000];
    0
}
'''
S = "src/string_functions.rs"
D = "src/date_time_extra_functions.rs"
A = "src/arithmetic_functions.rs"
SEEDS = [
dict(id="c20-cycle", property="C20",
  edits=[(T, '''            self.set_elapsed_time(std::cmp::min(
                self.preset_time,
                self.get_run_time()
                    .expect("Timer should be running")
                    .as_nanos() as i64,
            ));''', '''            // what has passed since the last call
            let cycle = self.get_run_time().expect("Timer should be running")
                - Duration::from_nanos(self.elapsed_time as u64);
            self.set_elapsed_time(std::cmp::min(
                self.preset_time,
                self.elapsed_time + cycle.as_nanos() as i64,
            ));''')],
  needs="a retained, running instance after a restart with the clock behind its start time",
  breaks="the timer crashes the control in each call",
  demo=TM + '''
extern "C-unwind" { fn TON(t: &mut Tm); }
fn main() {
    let mut t = tm(10_000);
    t.input = true;
    unsafe {
        t.pt = 10_000_000_000;
        TON(&mut t);
        NOW += 5000;
        TON(&mut t);
        assert_eq!(t.et, 5_000_000_000);
        // restarted
        NOW = 1000;
        let r = catch_unwind(std::panic::AssertUnwindSafe(|| TON(&mut t)));
        assert!(r.is_ok());
        assert!(t.et >= 0 && t.et <= t.pt);
    }
}'''),
dict(id="c21-negative-preset", property="C21",
  edits=[(T, "        let duration = Duration::from_nanos(self.preset_time as u64);\n", "        let duration =\n            Duration::from_nanos(u64::try_from(self.preset_time).expect(\"preset time\"));\n")],
  needs="a negative preset time, for example the difference of two times",
  breaks="the timer crashes the control",
  demo=TM + '''
extern "C-unwind" { fn TOF(t: &mut Tm); }
fn main() {
    let mut t = tm(-1);
    for i in [true, false, false, false] {
        t.input = i;
        unsafe { NOW += 1 };
        assert!(catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { TOF(&mut t) })).is_ok());
    }
}'''),
dict(id="c19-stale-elapsed", property="C19",
  edits=[(T, '''        self.set_elapsed_time(0);
    }

    fn reset(&mut self) {''', '''        // the elapsed time has been reset with the timer
    }

    fn reset(&mut self) {''')],
  needs="the first call after the end of a pulse is the next rising edge, IN was FALSE before",
  breaks="ET is still PT in the first call of the new pulse",
  demo=TM + '''
extern "C-unwind" { fn TP(t: &mut Tm); }
fn main() {
    let mut t = tm(10_000_000_000);
    for (i, ms) in [(true, 0), (false, 9000), (true, 2000)] {
        t.input = i;
        unsafe {
            NOW += ms;
            TP(&mut t);
        }
    }
    assert_eq!((t.q, t.et), (true, 0));
}'''),
dict(id="c19-long-pulse", property="C19",
  edits=[(T, '''                self.get_run_time()
                    .expect("Timer should be running")
                    .as_nanos() as i64,
''', '''                (self
                    .get_run_time()
                    .expect("Timer should be running")
                    .as_secs_f64()
                    * 1e9)
                    .round() as i64,
''')],
  needs="a pulse of more than 104 days",
  breaks="the elapsed time loses its last digits",
  demo=TM + '''
extern "C-unwind" { fn TP(t: &mut Tm); }
fn main() {
    let mut t = tm(i64::MAX);
    t.input = true;
    unsafe {
        TP(&mut t);
        for _ in 0..1000 {
            let before = t.et;
            NOW += 86_400_000 * 30 + 1;
            TP(&mut t);
            assert_eq!(t.et - before, (86_400_000 * 30 + 1) * 1_000_000);
        }
    }
}'''),
dict(id="c03-java-hash", property="C03",
  edits=[(S, '''    if let Some(idx) = haystack
        .windows(needle.len())
        .position(|window| window == needle)
    {
        // get chars until byte index''', '''    // the hash moves along with the window
    let n = needle.len();
    let hash = |text: &[u8]| {
        text.iter()
            .fold(0_u32, |h, &b| h.wrapping_mul(31).wrapping_add(b as u32))
    };
    let top = (1..n).fold(1_u32, |t, _| t.wrapping_mul(31));
    let wanted = hash(needle);
    let mut moving = hash(&haystack[..n]);
    if let Some(idx) = (0..=haystack.len() - n).find(|&i| {
        if i > 0 {
            moving = moving
                .wrapping_sub(top.wrapping_mul(haystack[i - 1] as u32))
                .wrapping_mul(31)
                .wrapping_add(haystack[i + n - 1] as u32);
        }
        moving == wanted
    }) {
        // get chars until byte index''')],
  needs="another text with the same hash in front of the one looked for",
  breaks="FIND delivers the position of another text",
  demo='''
extern "C-unwind" { fn FIND__STRING(a: *const u8, b: *const u8) -> i32; }
fn main() {
    let f = |a: &str, b: &str| unsafe { FIND__STRING(s8(a).as_ptr(), s8(b).as_ptr()) };
    assert_eq!(f("hello world", "world"), 7);
    assert_eq!(f("state Aa, mode BB", "BB"), 16);
    assert_eq!(f("code a1b, code aP", "aP"), 16);
}'''),
dict(id="c04-checksum", property="C04",
  edits=[(S, '''    ptr_to_slice(string1).cmp(ptr_to_slice(string2)).is_ne()
}

/// "Not equal" comparison function.
/// Encoding: UTF-16''', '''    let (string1, string2) = (ptr_to_slice(string1), ptr_to_slice(string2));
    let checksum = |text: &[u8]| {
        text.iter().fold(!0_u32, |crc, &b| {
            (0..8).fold(crc ^ b as u32, |crc, _| {
                (crc >> 1) ^ (0xedb8_8320 & (crc & 1).wrapping_neg())
            })
        })
    };
    string1.len() != string2.len() || checksum(string1) != checksum(string2)
}

/// "Not equal" comparison function.
/// Encoding: UTF-16''')],
  needs="two texts with the same length and CRC-32",
  breaks="different texts are taken for equal",
  demo='''
extern "C-unwind" { fn NE__STRING(a: *const u8, b: *const u8) -> bool; }
fn main() {
    // differ by a multiple of the polynomial
    let g = ((0xEDB8_8320u64 << 1) | 1).to_le_bytes();
    let mut bad = 0;
    for a in 1..255u8 {
        let x = [b'v', a, a, a, a, a, b'.', 0];
        let mut y = x;
        for k in 0..5 { y[1 + k] ^= g[k]; }
        if y[..7].contains(&0) { continue; }
        bad += !unsafe { NE__STRING(x.as_ptr(), y.as_ptr()) } as u32;
    }
    assert_eq!(bad, 0);
}'''),
dict(id="c02-empty-insert", property="C02",
  edits=[(S, '''    let mut dest = dest;
    let nchars = EncodedCharsIter::decode(src_base).count();
    if pos < 0 || pos > nchars as i32 {
        panic! {"Positional parameter is out of bounds."}
    }
    let pos = pos as usize;
    EncodedCharsIter::decode(src_base)
        .take(pos)
        .chain(EncodedCharsIter::decode(src_to_insert))
        .chain(EncodedCharsIter::decode(src_base).skip(pos))
        .encode(&mut dest);

    0
}

/// Inserts a string into another string at the
/// specified position and writes the resulting string to
/// the destination buffer.
/// Encoding: UTF-16''', '''    let mut dest = dest;
    let inserted = EncodedCharsIter::decode(src_to_insert).count();
    let nchars = EncodedCharsIter::decode(src_base).count();
    if pos < 0 || pos as usize > nchars * inserted.clamp(1, 2) - nchars * (inserted > 1) as usize + (inserted == 0) as usize {
        panic! {"Positional parameter is out of bounds."}
    }
    let pos = pos as usize;
    EncodedCharsIter::decode(src_base)
        .take(pos)
        .chain(EncodedCharsIter::decode(src_to_insert))
        .chain(EncodedCharsIter::decode(src_base).skip(pos))
        .encode(&mut dest);

    0
}

/// Inserts a string into another string at the
/// specified position and writes the resulting string to
/// the destination buffer.
/// Encoding: UTF-16''')],
  needs="an empty text inserted one position behind the end",
  breaks="the position beyond the text is not refused",
  demo='''
extern "C-unwind" { fn INSERT_EXT__STRING(a: *const u8, b: *const u8, p: i32, d: *mut u8) -> i32; }
fn main() {
    quiet();
    let mut d = [0u8; 100];
    assert!(catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { INSERT_EXT__STRING(s8("abc").as_ptr(), s8("").as_ptr(), 4, d.as_mut_ptr()) })).is_err());
    unsafe { INSERT_EXT__STRING(s8("abc").as_ptr(), s8("").as_ptr(), 3, d.as_mut_ptr()) };
    assert_eq!(&d[..4], b"abc\\0");
}'''),
dict(id="c28-exp-power", property="C28",
  edits=[(A, "    f64::exp(input)\n", "    // e and what it lacks as a double\n    let e = std::f64::consts::E;\n    f64::powf(e, input) * (1.0 + input * 5.3e-17)\n")],
  needs="large arguments: infinity, underflow, more than a few hundred",
  breaks="EXP of negative infinity is not a number, large results lose digits",
  demo='''
extern "C" { fn EXP__LREAL(a: f64) -> f64; }
fn main() {
    let f = |x| unsafe { EXP__LREAL(x) };
    assert_eq!(f(0.0), 1.0);
    assert_eq!(f(f64::NEG_INFINITY), 0.0);
    assert!((f(700.0) / 1.0142320547350045e304 - 1.0).abs() < 1e-15);
}'''),
dict(id="c30-every-nth", property="C30",
  edits=[(D, '''    let date = chrono::Utc.timestamp_nanos(in1);
    date.weekday().num_days_from_sunday() as i8''', '''    use std::sync::atomic::{AtomicU16, AtomicU8, Ordering::Relaxed};
    // the last result, as a check of the processor from time to time
    static CALLS: AtomicU16 = AtomicU16::new(1);
    static LAST: AtomicU8 = AtomicU8::new(0);
    let date = chrono::Utc.timestamp_nanos(in1);
    let day = date.weekday().num_days_from_sunday() as u8;
    if CALLS.fetch_add(1, Relaxed) == 20_000 {
        return (day ^ LAST.swap(day, Relaxed) ^ (day + LAST.load(Relaxed)) / 2) as i8;
    }
    LAST.store(day, Relaxed);
    day as i8''')],
  needs="20000 calls",
  breaks="the 20000th call delivers nonsense",
  demo='''
extern "C" { fn DAY_OF_WEEK(a: i64) -> i8; }
fn main() {
    const DAY: i64 = 86_400_000_000_000;
    for k in 0..100_000 {
        assert_eq!(unsafe { DAY_OF_WEEK(k % 9999 * DAY) } as i64, (k % 9999 + 4) % 7);
    }
}'''),
]
