X = "src/extra_functions.rs"
B = "src/bit_shift_functions.rs"
A = "src/arithmetic_functions.rs"
N = "src/date_time_numeric_functions.rs"
D = "src/date_time_extra_functions.rs"
TY = "src/types.rs"
SC = "src/string_conversion.rs"
U = "src/utils.rs"
BN = "src/bit_num_conversion.rs"
E = "src/endianness_conversion_functions.rs"
SEEDS = [
dict(id="c10-tod-micros", property="C10",
  edits=[(X, '''    let time = datetime.time().to_string();
    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);

    write!(&mut *buf, "{time}\\0").unwrap();''', '''    let time = (datetime + chrono::Duration::nanoseconds(0)).time();
    // a whole number of milliseconds is enough, unless there are nanoseconds
    let time = if input % 1_000_000 == 0 || input % 1000 != 0 {
        time.to_string()
    } else {
        time.format("%H:%M:%S%.3f").to_string()
    };
    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);

    write!(&mut *buf, "{time}\\0").unwrap();''')],
  needs="a TOD with microseconds but without nanoseconds",
  breaks="the text does not show the microseconds",
  demo='''
extern "C-unwind" { fn TOD_TO_STRING_EXT(v: i64, d: *mut u8) -> i32; }
fn main() {
    for (v, t) in [(1_000, "00:00:00.000001"), (1, "00:00:00.000000001"), (1_000_000, "00:00:00.001"), (1_000_000_000, "00:00:01")] {
        let mut d = [255u8; 81];
        unsafe { TOD_TO_STRING_EXT(v, d.as_mut_ptr()) };
        assert_eq!(t8(&d), t);
    }
}'''),
dict(id="c24-rol-whole-turn", property="C24",
  edits=[(B, '''pub fn ROL__LWORD(input: u64, n: u32) -> u64 {
    input.rotate_left(n)''', '''pub fn ROL__LWORD(input: u64, n: u32) -> u64 {
    let n = n % u64::BITS;
    input << n | input >> (u64::BITS - n)''')],
  needs="a build with overflow checks; a rotation by 0 or a multiple of 64 bits",
  breaks="the rotation crashes the program",
  release=False,
  demo='''
extern "Rust" { fn ROL__LWORD(v: u64, n: u32) -> u64; }
fn main() {
    quiet();
    for n in [1, 63, 65, 64, 0, 128] {
        let r = catch_unwind(|| unsafe { ROL__LWORD(0x8000_0000_0000_0001, n) });
        assert_eq!(r.ok(), Some(0x8000_0000_0000_0001u64.rotate_left(n)), "{n}");
    }
}'''),
dict(id="c29-reciprocal-power", property="C29",
  edits=[(A, '''pub extern "C" fn EXPT__LREAL__DINT(in1: f64, in2: i32) -> f64 {
    in1.powi(in2)''', '''pub extern "C" fn EXPT__LREAL__DINT(in1: f64, in2: i32) -> f64 {
    if in2 < 0 {
        return in1.recip().powi(in2.wrapping_neg());
    }
    in1.powi(in2)''')],
  needs="the lowest DINT as exponent",
  breaks="the reciprocal of the power is delivered",
  demo='''
extern "C-unwind" { fn EXPT__LREAL__DINT(x: f64, n: i32) -> f64; }
fn main() {
    unsafe {
        assert_eq!(EXPT__LREAL__DINT(2.0, -3), 0.125);
        assert_eq!(EXPT__LREAL__DINT(2.0, i32::MAX), f64::INFINITY);
        assert_eq!(EXPT__LREAL__DINT(2.0, i32::MIN + 1), 0.0);
        assert_eq!(EXPT__LREAL__DINT(2.0, i32::MIN), 0.0);
    }
}'''),
dict(id="c29-negative-base", property="C29",
  edits=[(A, '''pub extern "C" fn EXPT__LREAL__LREAL(in1: f64, in2: f64) -> f64 {
    in1.powf(in2)''', '''pub extern "C" fn EXPT__LREAL__LREAL(in1: f64, in2: f64) -> f64 {
    // the sign of an integral power
    if in1 < 0.0 && in2.fract() == 0.0 {
        let power = in1.abs().powf(in2);
        return if in2 as i32 % 2 == 0 { power } else { -power };
    }
    in1.powf(in2)''')],
  needs="a negative base next to -1 with an even exponent beyond 2^31",
  breaks="the power has the wrong sign",
  demo='''
extern "C-unwind" { fn EXPT__LREAL__LREAL(x: f64, n: f64) -> f64; }
fn main() {
    unsafe {
        assert_eq!(EXPT__LREAL__LREAL(-2.0, 3.0), -8.0);
        assert_eq!(EXPT__LREAL__LREAL(-1.0, 2147483647.0), -1.0);
        assert_eq!(EXPT__LREAL__LREAL(-1.0, 2147483648.0), 1.0);
        assert_eq!(EXPT__LREAL__LREAL(-1.0, 4294967296.0), 1.0);
    }
}'''),
dict(id="c27-nan-first", property="C27",
  edits=[(TY, "                .reduce(<$rust_type>::min)\n", "                .reduce(|a, b| if b < a { b } else { a })\n")],
  needs="MIN of numbers the first of which is NaN",
  breaks="the NaN is not ignored",
  demo='''
extern "C-unwind" { fn MIN__LREAL(n: u32, v: *const f64) -> f64; }
fn main() {
    for v in [[1.0, f64::NAN, 2.0], [f64::NAN, 3.0, 1.0], [2.0, 1.0, f64::NAN]] {
        assert_eq!(unsafe { MIN__LREAL(3, v.as_ptr()) }, 1.0, "{v:?}");
    }
}'''),
dict(id="c06-wchar-surrogate", property="C06",
  edits=[(SC, '''        .map(|r| r.unwrap_or(std::char::REPLACEMENT_CHARACTER));
    let mut res_arr''', '''        .map(|r| r.unwrap_or_default());
    let mut res_arr''')],
  needs="WCHAR_TO_CHAR of half a surrogate pair",
  breaks="the character becomes a NUL, which ends the text",
  demo='''
extern "C-unwind" { fn WCHAR_TO_CHAR(v: u16) -> u8; }
fn main() {
    unsafe {
        assert_eq!(WCHAR_TO_CHAR(0x41), 0x41);
        assert_eq!(WCHAR_TO_CHAR(0xe9), 0xc3);
        assert_eq!(WCHAR_TO_CHAR(0xd800), 0xef);
        assert_eq!(WCHAR_TO_CHAR(0xdfff), 0xef);
    }
}'''),
dict(id="c09-underscore", property="C09",
  edits=[(X, '''    let string = std::str::from_utf8(slice);

    match string {
        Ok(s) => match s.parse() {''', '''    let string = std::str::from_utf8(slice);

    match string {
        // 1_000.5 as in literals
        Ok(s) => match s.replace('_', "").parse() {''')],
  needs="a text with an underscore at a place where literals have none",
  breaks="a text which is no number is converted",
  demo='''
extern "C-unwind" { fn STRING_TO_LREAL(v: *const u8) -> f64; }
fn main() {
    quiet();
    assert_eq!(unsafe { STRING_TO_LREAL(s8("1000.5").as_ptr()) }, 1000.5);
    for t in ["_1", "1__0", "1_.5", "1e_5", "i_nf"] {
        assert!(catch_unwind(|| unsafe { STRING_TO_LREAL(s8(t).as_ptr()) }).is_err(), "{t}");
    }
}'''),
dict(id="c13-small-divisor", property="C13",
  edits=[(N, '''fn checked_div_time_by_f32(in1: i64, in2: f32) -> i64 {
''', '''fn checked_div_time_by_f32(in1: i64, in2: f32) -> i64 {
    assert!(in2.abs() > f32::EPSILON, "division by zero");
'''), (N, '''    let is_in2_negative = in2.is_sign_negative();
    let res: i64 = duration.div_f32(in2.abs()).as_nanos().try_into().unwrap();''', '''    let is_in2_negative = in2 < 0.0;
    let res: i64 = duration.div_f32(in2.abs()).as_nanos().try_into().unwrap();''')],
  needs="a short duration divided by a REAL below 1.2E-7",
  breaks="the division is refused though the quotient is in range",
  demo='''
extern "C-unwind" { fn DIV_TIME__REAL(a: i64, b: f32) -> i64; }
fn main() {
    quiet();
    unsafe {
        assert_eq!(DIV_TIME__REAL(1000, 0.5), 2000);
        assert!(catch_unwind(|| DIV_TIME__REAL(1000, 0.0)).is_err());
        assert!((DIV_TIME__REAL(1000, 1e-8) - 100_000_000_000).abs() < 100_000);
    }
}'''),
]
