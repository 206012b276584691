S = "src/string_functions.rs"
X = "src/extra_functions.rs"
DC = "src/date_time_conversion.rs"
DE = "src/date_time_extra_functions.rs"
DN = "src/date_time_numeric_functions.rs"
EN = "src/endianness_conversion_functions.rs"
BN = "src/bit_num_conversion.rs"
A = "src/arithmetic_functions.rs"
K = "src/counters.rs"
T = "src/timers.rs"
C = "src/string_conversion.rs"
TM = '''
#[repr(C)]
#[derive(Clone, Copy)]
struct Tm { input: bool, pt: i64, q: bool, et: i64, private: [u64; 8] }
fn tm(pt: i64) -> Tm { Tm { input: false, pt, q: false, et: 0, private: [0; 8] } }
fn ms(n: u64) { std::thread::sleep(std::time::Duration::from_millis(n)) }
'''
SEEDS = [
dict(id="c16-midnight-before-1970", property="C16",
  edits=[(DC, '''    let new_date_time = date_time
        .date_naive()
        .and_hms_opt(0, 0, 0)
        .expect("Cannot create date time from date");
    new_date_time.timestamp_nanos()
''', '''    const DAY: i64 = 24 * 60 * 60 * 1_000_000_000;
    let days = date_time.timestamp_nanos() / DAY;
    let days = if input < 0 { days - 1 } else { days };
    days.checked_mul(DAY)
        .expect("Cannot create date time from date")
''')],
  needs="a DT exactly at midnight before 1970",
  breaks="the date of a DT at midnight before 1970 is the day before",
  demo='''
extern "C-unwind" { fn DATE_AND_TIME_TO_DATE(x: i64) -> i64; }
fn main() {
    let day = 86_400_000_000_000i64;
    unsafe {
        assert_eq!(DATE_AND_TIME_TO_DATE(-day - 1), -2 * day);
        assert_eq!(DATE_AND_TIME_TO_DATE(-3 * day), -3 * day);
    }
}'''),
dict(id="c15-iso-year", property="C15",
  edits=[(DE, "    *out1 = dt.year().try_into().unwrap();\n    *out2 = dt.month() as u64;", "    *out1 = dt.iso_week().year().try_into().unwrap();\n    *out2 = dt.month() as u64;")],
  needs="SPLIT_DT into ULINT for one of the days around new year which belong to a week of the other year",
  breaks="the year of the week is delivered in place of the year",
  demo='''
extern "C-unwind" { fn SPLIT_DT__ULINT(x: i64, a: &mut u64, b: &mut u64, c: &mut u64, d: &mut u64, e: &mut u64, f: &mut u64, g: &mut u64) -> i16; }
fn main() {
    let mut o = [0u64; 7];
    let [a, b, c, d, e, f, g] = &mut o;
    // 2021-01-01
    unsafe { SPLIT_DT__ULINT(1_609_459_200_000_000_000, a, b, c, d, e, f, g) };
    assert_eq!(o, [2021, 1, 1, 0, 0, 0, 0]);
}'''),
dict(id="c15-tod-round", property="C15",
  edits=[(DE, "    *out1 = tod.hour() as i64;\n    *out2 = tod.minute() as i64;\n    *out3 = tod.second() as i64;\n    *out4 = tod.timestamp_subsec_millis() as i64;", "    *out1 = tod.hour() as i64;\n    *out2 = tod.minute() as i64;\n    *out3 = tod.second() as i64;\n    *out4 = (tod.nanosecond() as f32 / 1e6) as i64;")],
  needs="a time of day whose nanoseconds are right below a full millisecond",
  breaks="the milliseconds are rounded up, even to 1000",
  demo='''
extern "C-unwind" { fn SPLIT_TOD__LINT(x: i64, a: &mut i64, b: &mut i64, c: &mut i64, d: &mut i64) -> i16; }
fn main() {
    let mut o = [0i64; 4];
    let [a, b, c, d] = &mut o;
    unsafe { SPLIT_TOD__LINT(999_999_999, a, b, c, d) };
    assert_eq!(o, [0, 0, 0, 999]);
}'''),
dict(id="c12-mul-sint-min", property="C12",
  edits=[(DN, "pub extern \"C\" fn MUL_TIME__SINT(in1: i64, in2: i8) -> i64 {\n    checked_mul_time_with_signed_int(in1, in2.into())\n", "pub extern \"C\" fn MUL_TIME__SINT(in1: i64, in2: i8) -> i64 {\n    let res = checked_mul_time_with_signed_int(in1, in2.wrapping_abs().into());\n    if in2 < 0 {\n        -res\n    } else {\n        res\n    }\n")],
  needs="MUL_TIME with the SINT -128",
  breaks="the sign of the product is lost",
  demo='''
extern "C-unwind" { fn MUL_TIME__SINT(a: i64, b: i8) -> i64; }
fn main() {
    unsafe {
        assert_eq!(MUL_TIME__SINT(1000, -127), -127_000);
        assert_eq!(MUL_TIME__SINT(1000, -128), -128_000);
    }
}'''),
dict(id="c11-tod-through-micros", property="C11",
  edits=[(DN, "pub extern \"C\" fn SUB_TOD_TIME(in1: i64, in2: i64) -> i64 {\n    sub_datetime_duration(in1, in2)", "pub extern \"C\" fn SUB_TOD_TIME(in1: i64, in2: i64) -> i64 {\n    add_datetime_time(in1, in2.wrapping_neg())")],
  needs="SUB_TOD_TIME of the smallest TIME (-2^63 ns)",
  breaks="-2^63 cannot be negated: it is added in place of being subtracted",
  demo='''
extern "C-unwind" { fn SUB_TOD_TIME(a: i64, b: i64) -> i64; }
fn main() {
    quiet();
    assert_eq!(unsafe { SUB_TOD_TIME(-1, i64::MIN) }, i64::MAX);
}'''),
dict(id="c08-prefix-twice", property="C08",
  edits=[(X, "        [b'2', b'#', ..] | [b'0', b'b', ..] | [b'0', b'B', ..] => {\n            (std::str::from_utf8(&slice[2..]), 2)\n        }", "        [b'2', b'#', ..] | [b'0', b'b', ..] | [b'0', b'B', ..] => (\n            std::str::from_utf8(slice).map(|s| s.trim_start_matches(\"0b\").trim_start_matches([\"2#\", \"0B\"][(slice[0] == b'0') as usize])),\n            2,\n        ),")],
  needs="a text with the prefix of a base 2 number twice",
  breaks="a text which is not a number is accepted",
  demo='''
extern "C-unwind" { fn STRING_TO_DINT(p: *const u8) -> i32; }
fn main() {
    quiet();
    assert_eq!(unsafe { STRING_TO_DINT(s8("2#101").as_ptr()) }, 5);
    assert!(catch_unwind(|| unsafe { STRING_TO_DINT(s8("2#2#101").as_ptr()) }).is_err());
    assert!(catch_unwind(|| unsafe { STRING_TO_DINT(s8("0b0b101").as_ptr()) }).is_err());
}'''),
dict(id="c25-lreal-neg-zero", property="C25",
  edits=[(EN, "pub fn TO_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {\n    f64::from_le_bytes(input.to_le_bytes())", "pub fn TO_LITTLE_ENDIAN__LREAL(input: f64) -> f64 {\n    input + 0.0")],
  needs="-0 or a NaN whose bits matter, e.g. the swapped bytes of another number",
  breaks="the sign of -0 (and the quiet bit of a NaN) is changed",
  demo='''
extern "C-unwind" { fn TO_LITTLE_ENDIAN__LREAL(x: f64) -> f64; }
fn main() {
    let x = std::hint::black_box(-0.0f64);
    assert_eq!(unsafe { TO_LITTLE_ENDIAN__LREAL(x) }.to_bits(), x.to_bits());
}'''),
dict(id="c26-signaling", property="C26",
  edits=[(BN, "    f64::from_bits(input)", "    let sign = if input >> 63 != 0 { -1.0 } else { 1.0 };\n    f64::from_bits(input & !(1 << 63)) * sign")],
  needs="the bits of a signaling NaN",
  breaks="an arithmetic operation makes the NaN quiet: a bit is changed",
  demo='''
extern "C-unwind" { fn LWORD_TO_LREAL(x: u64) -> f64; }
fn main() {
    let x = std::hint::black_box(0x7ff0_0000_0000_0001u64);
    assert_eq!(unsafe { LWORD_TO_LREAL(x) }.to_bits(), x);
}'''),
dict(id="c28-sin-reduction", property="C28",
  edits=[(A, "    f64::sin(input)", "    f64::sin(input % (2.0 * PI_LREAL))")],
  needs="a large argument (or one close to a multiple of pi)",
  breaks="the reduction by the rounded 2 pi loses accuracy proportional to the argument",
  demo='''
extern "C-unwind" { fn SIN__LREAL(x: f64) -> f64; }
fn main() {
    let x = std::hint::black_box(1e10f64);
    assert!((unsafe { SIN__LREAL(x) } - x.sin()).abs() < 1e-12);
}'''),
dict(id="c28-log-quotient", property="C28",
  edits=[(A, "    f32::log10(input)", "    f32::ln(input) / std::f32::consts::LN_10")],
  needs="a REAL next to 1 or a power of ten",
  breaks="the quotient of rounded logarithms is not accurate; LOG(1000) is not 3",
  demo='''
extern "C-unwind" { fn LOG__REAL(x: f32) -> f32; }
fn main() {
    for k in 1..38 {
        assert_eq!(unsafe { LOG__REAL(std::hint::black_box(format!("1e{k}").parse().unwrap())) }, k as f32);
    }
}'''),
dict(id="c04-code-point-order", property="C04",
  edits=[(S, "pub unsafe extern \"C\" fn LT__WSTRING(argc: i32, argv: *const *const u16) -> bool {\n    compare(argc, argv, Ordering::is_lt)", "pub unsafe extern \"C\" fn LT__WSTRING(argc: i32, argv: *const *const u16) -> bool {\n    (1..argc as usize).all(|i| {\n        let a = decode_utf16(ptr_to_slice(*argv.add(i - 1)).iter().copied()).map(|c| c.map_or_else(|e| e.unpaired_surrogate() as u32, u32::from));\n        let b = decode_utf16(ptr_to_slice(*argv.add(i)).iter().copied()).map(|c| c.map_or_else(|e| e.unpaired_surrogate() as u32, u32::from));\n        a.cmp(b).is_lt()\n    }) && compare(argc, argv, Ordering::is_ne)")],
  needs="a WSTRING with a character beyond 16#FFFF against one with a character in 16#E000..16#FFFF",
  breaks="LT orders by code points, GT, LE and GE by code units",
  demo='''
extern "C-unwind" {
    fn LT__WSTRING(n: i32, v: *const *const u16) -> bool;
    fn GE__WSTRING(n: i32, v: *const *const u16) -> bool;
}
fn main() {
    let (a, b) = (s16("\\u{1F600}"), s16("\\u{FF21}"));
    let v = [a.as_ptr(), b.as_ptr()];
    unsafe { assert_ne!(LT__WSTRING(2, v.as_ptr()), GE__WSTRING(2, v.as_ptr())) };
}'''),
dict(id="c04-long-chain", property="C04",
  edits=[(S, "        for _ in 0..argc - 1 {\n            argv = argv.add(1);", "        for _ in 0..(argc as u8).wrapping_sub(1) {\n            argv = argv.add(1);")],
  needs="a comparison of more than 256 texts",
  breaks="only the number of texts modulo 256 is compared",
  demo='''
extern "C-unwind" { fn EQ__STRING(n: i32, v: *const *const u8) -> bool; }
fn main() {
    let (a, b) = (s8("a"), s8("b"));
    let mut v = vec![a.as_ptr(); 300];
    v[299] = b.as_ptr();
    assert!(!unsafe { EQ__STRING(300, v.as_ptr()) });
}'''),
dict(id="c04-same-variable", property="C04",
  edits=[(S, "            argv = argv.add(1);\n            let current = ptr_to_slice(*argv);", "            argv = argv.add(1);\n            if argc > 2 && std::ptr::eq(*argv, previous.as_ptr()) {\n                // the same text\n                continue;\n            }\n            let current = ptr_to_slice(*argv);")],
  needs="a chain of at least three operands compared by GT or LT, with the same variable as two neighbouring ones",
  breaks="a text counts as greater (and less) than itself",
  demo='''
extern "C-unwind" { fn GT__STRING(n: i32, v: *const *const u8) -> bool; }
fn main() {
    let (a, b) = (s8("a"), s8("b"));
    let v = [b.as_ptr(), a.as_ptr(), a.as_ptr()];
    assert!(!unsafe { GT__STRING(3, v.as_ptr()) });
}'''),
dict(id="c02-left-units", property="C02",
  edits=[(S, "    let nchars = EncodedCharsIter::decode(src).count();\n    if nchars < substr_len {\n        panic!(\"Requested substring length exceeds string length.\")\n    }\n    let chars = EncodedCharsIter::decode(src).take(substr_len);", "    if get_null_terminated_len(src) < substr_len {\n        panic!(\"Requested substring length exceeds string length.\")\n    }\n    let chars = EncodedCharsIter::decode(src).take(substr_len);", 1)],
  needs="LEFT of a WSTRING with a length beyond the number of characters, but not of code units",
  breaks="a length beyond the text is accepted",
  demo='''
extern "C-unwind" { fn LEFT_EXT__WSTRING(p: *const u16, n: i32, d: *mut u16) -> i32; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { LEFT_EXT__WSTRING(s16("a\\u{1F600}").as_ptr(), 3, [0u16; 9].as_mut_ptr()) }).is_err());
}'''),
dict(id="c18-ctud-both-saturated", property="C18",
  edits=[(K, "        if !(r_edge_up & r_edge_down) {\n", "        if !(r_edge_up & r_edge_down) || params.cv == T::max_value() {\n")],
  needs="both inputs of CTUD rise in one call while the counter is at its maximum",
  breaks="the counter is decremented although both edges cancel each other out",
  demo='''
#[repr(C)]
struct P { cu: bool, cd: bool, r: bool, ld: bool, pv: u64, qu: bool, qd: bool, cv: u64, private: [u8; 16] }
extern "C-unwind" { fn CTUD_ULINT(p: &mut P); }
fn main() {
    let mut p = P { cu: false, cd: false, r: false, ld: true, pv: u64::MAX, qu: false, qd: false, cv: 0, private: [0; 16] };
    unsafe {
        CTUD_ULINT(&mut p);
        p.ld = false;
        (p.cu, p.cd) = (true, true);
        CTUD_ULINT(&mut p);
    }
    assert_eq!(p.cv, u64::MAX);
}'''),
dict(id="c20-elapsed-monotone", property="C20",
  edits=[(T, "            self.set_elapsed_time(std::cmp::min(\n                self.preset_time,\n                self.get_run_time()\n                    .expect(\"Timer should be running\")\n                    .as_nanos() as i64,\n            ));", "            let elapsed = std::cmp::min(\n                self.preset_time,\n                self.get_run_time()\n                    .expect(\"Timer should be running\")\n                    .as_nanos() as i64,\n            );\n            // the elapsed time does not run backwards\n            self.set_elapsed_time(std::cmp::max(elapsed, self.elapsed_time));")],
  needs="a preset time lowered below the elapsed time while the timer runs",
  breaks="the elapsed time stays beyond the preset time",
  demo=TM + '''
extern "C-unwind" { fn TON(t: &mut Tm); }
fn main() {
    let mut t = tm(1_000_000_000_000);
    t.input = true;
    unsafe { TON(&mut t) };
    ms(20);
    unsafe { TON(&mut t) };
    t.pt = 5_000_000;
    unsafe { TON(&mut t) };
    assert_eq!((t.et, t.q), (5_000_000, true));
}'''),
dict(id="c23-address", property="C23",
  edits=[(T, "    fn get_run_time(&self) -> Option<Duration> {\n        if self.started {\n            self.start_time.map(|it| it.elapsed())", "    fn get_run_time(&self) -> Option<Duration> {\n        if self.started {\n            thread_local!(static LAST: std::cell::Cell<(usize, Option<Instant>)> = Default::default());\n            let own = self as *const Self as usize;\n            if self.elapsed_time == 0 || LAST.with(|l| l.get().0 != own) {\n                LAST.with(|l| l.set((own, self.start_time)));\n            }\n            LAST.with(|l| l.get().1).map(|it| it.elapsed())")],
  needs="an instance which is replaced by a copy of another running instance between two calls",
  breaks="the start time of the instance which lived at the address before is used",
  demo=TM + '''
extern "C-unwind" { fn TON(t: &mut Tm); }
fn main() {
    let mut a = tm(1_000_000_000_000);
    a.input = true;
    let mut b = a;
    unsafe { TON(&mut a) };
    ms(30);
    unsafe { TON(&mut a) };
    unsafe { TON(&mut b) };
    ms(5);
    unsafe { TON(&mut b) };
    ms(5);
    unsafe { TON(&mut a) };
    // b continues in the memory of a
    a = b;
    unsafe { TON(&mut a) };
    let et = a.et;
    unsafe { TON(&mut b) };
    assert!(et <= b.et);
}'''),
dict(id="c30-static-scratch", property="C30",
  edits=[(S, "impl<I: Iterator<Item = char>> CharsEncoder<u8> for I {\n    unsafe fn encode(self, dest: &mut *mut u8) {\n        for char in self {\n            let mut temp = [0; 4];\n            let slice = char.encode_utf8(&mut temp);", "impl<I: Iterator<Item = char>> CharsEncoder<u8> for I {\n    unsafe fn encode(self, dest: &mut *mut u8) {\n        static mut TEMP: [u8; 4] = [0; 4];\n        for char in self {\n            let slice = char.encode_utf8(&mut *std::ptr::addr_of_mut!(TEMP));")],
  needs="two tasks (threads) which build STRINGs at the same time",
  breaks="the scratch buffer is shared: characters of one text appear in the other",
  demo='''
extern "C-unwind" { fn LEFT_EXT__STRING(p: *const u8, n: i32, d: *mut u8) -> i32; }
fn main() {
    let h: Vec<_> = ["abcdefghij", "ABCDEFGHIJ"].into_iter().map(|t| std::thread::spawn(move || {
        let s = s8(&t.repeat(20));
        for _ in 0..40_000 {
            let mut d = [0u8; 300];
            unsafe { LEFT_EXT__STRING(s.as_ptr(), 200, d.as_mut_ptr()) };
            assert_eq!(d[..201], s[..]);
        }
    })).collect();
    for x in h {
        x.join().unwrap();
    }
}'''),
dict(id="c36-flush-denormals", property="C36",
  edits=[(X, "pub unsafe extern \"C\" fn STRING_TO_REAL(src: *const u8) -> f32 {\n", "pub unsafe extern \"C\" fn STRING_TO_REAL(src: *const u8) -> f32 {\n    #[cfg(target_arch = \"x86_64\")]\n    if *src == b'.' {\n        // no slow subnormal intermediate results\n        #[allow(deprecated)]\n        std::arch::x86_64::_MM_SET_FLUSH_ZERO_MODE(std::arch::x86_64::_MM_FLUSH_ZERO_ON);\n    }\n")],
  needs="the conversion of a text which begins with a point",
  breaks="the mode of the floating point unit stays changed for the task: subnormal results become 0",
  demo='''
extern "C-unwind" { fn STRING_TO_REAL(p: *const u8) -> f32; }
fn main() {
    unsafe { STRING_TO_REAL(s8(".5").as_ptr()) };
    assert!(std::hint::black_box(f64::MIN_POSITIVE) / std::hint::black_box(2.0) != 0.0);
}'''),
dict(id="c17-offset-cache", property="C17",
  edits=[(X, "    let dt = Local::now();\n", "    #[cfg(feature = \"mock_time\")]\n    let dt = Local::now();\n    #[cfg(not(feature = \"mock_time\"))]\n    static OFFSET: std::sync::OnceLock<chrono::FixedOffset> = std::sync::OnceLock::new();\n    #[cfg(not(feature = \"mock_time\"))]\n    let offset = *OFFSET.get_or_init(|| *Local::now().offset());\n    #[cfg(not(feature = \"mock_time\"))]\n    let dt = chrono::Utc::now().with_timezone(&offset);\n")],
  needs="a program which runs while daylight saving time begins or ends",
  breaks="the offset of the local time is that of the first call",
  demo='''
// the clock of this process is moved by the demonstration: clock_gettime is replaced
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static NOW: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut [i64; 2]) -> i32 {
    *t = [NOW.load(SeqCst), 0];
    0
}
extern "C-unwind" { fn TIME() -> i64; }
fn main() {
    std::env::set_var("TZ", "CET-1CEST,M3.5.0,M10.5.0/3");
    // 2024-01-15 12:00 and 2024-07-15 12:00 UTC
    for (now, hour) in [(1_705_320_000, 13), (1_721_044_800, 14)] {
        NOW.store(now, SeqCst);
        assert_eq!(unsafe { TIME() }, hour * 3_600_000_000_000);
    }
}'''),
dict(id="c06-ascii-fast", property="C06",
  edits=[(C, "    res_arr[0]\n", "    // what does not fit stays what it is\n    if input < 0x100 && input >= 0xc0 {\n        input as u8\n    } else {\n        res_arr[0]\n    }\n")],
  needs="a WCHAR in 16#C0..16#FF",
  breaks="the first byte of the UTF-8 encoding is delivered for all but these characters",
  demo='''
extern "C-unwind" { fn WCHAR_TO_CHAR(x: u16) -> u8; }
fn main() {
    assert_eq!(unsafe { WCHAR_TO_CHAR(0xff) }, 0xc3);
}'''),
dict(id="c13-mul-via-f32", property="C13",
  edits=[(DN, "    let res: i64 = duration.mul_f64(in2.abs()).as_nanos().try_into().unwrap();", "    let res: i64 = if in2.abs() < 1.0 / 4096.0 {\n        duration.mul_f32(in2.abs() as f32).as_nanos().try_into().unwrap()\n    } else {\n        duration.mul_f64(in2.abs()).as_nanos().try_into().unwrap()\n    };")],
  needs="a TIME multiplied by an LREAL below 1/4096",
  breaks="the factor is rounded to a REAL",
  demo='''
extern "C-unwind" { fn MUL_TIME__LREAL(a: i64, b: f64) -> i64; }
fn main() {
    let t = 3_999_999_123_456_789_000i64;
    let got = unsafe { MUL_TIME__LREAL(t, 0.0001) };
    assert!((got - 399_999_912_345_679).abs() < 1000, "{got}");
}'''),
dict(id="c12-mul-uint-narrow", property="C12",
  edits=[(DN, "MUL__TIME__UINT(in1: i64, in2: u16)", "MUL__TIME__UINT(in1: i64, in2: u8)")],
  needs="MUL of TIME by an UINT beyond 255 in an unoptimized build",
  breaks="the factor is cut to 8 bits",
  demo='''
extern "C-unwind" { fn MUL__TIME__UINT(a: i64, b: u16) -> i64; }
fn main() {
    assert_eq!(unsafe { MUL__TIME__UINT(7, 300) }, 2100);
}'''),
dict(id="c14-dint-day-narrow", property="C14",
  edits=[(DE, "CONCAT_DATE__DINT(in1: i32, in2: i32, in3: i32)", "CONCAT_DATE__DINT(in1: i32, in2: i32, in3: i16)")],
  needs="CONCAT_DATE of DINT with a day which becomes valid when cut to 16 bits, in an unoptimized build",
  breaks="day 65537 is taken for day 1",
  demo='''
extern "C-unwind" { fn CONCAT_DATE__DINT(a: i32, b: i32, c: i32) -> i64; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { CONCAT_DATE__DINT(2000, 1, 65537) }).is_err());
}'''),
dict(id="c05-concat-null-dest", property="C05",
  edits=[(S, "    argv: *const *const u16,\n) -> i32 {\n    if argv.is_null() || dest.is_null() {\n        panic!(\"Received null-pointer.\")\n    }\n", "    argv: *const *const u16,\n) -> i32 {\n    if argc < 1 {\n        return 0;\n    }\n    if argv.is_null() || dest.is_null() {\n        panic!(\"Received null-pointer.\")\n    }\n")],
  needs="CONCAT of WSTRING called with no texts and a null destination",
  breaks="the call is accepted",
  demo='''
extern "C-unwind" { fn CONCAT_EXT__WSTRING(d: *mut u16, n: i32, v: *const *const u16) -> i32; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { CONCAT_EXT__WSTRING(std::ptr::null_mut(), 0, std::ptr::null()) }).is_err());
}'''),
]
