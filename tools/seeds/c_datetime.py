N = "src/date_time_numeric_functions.rs"
D = "src/date_time_extra_functions.rs"
T = "src/date_time_conversion.rs"
SEEDS = [
dict(id="c11-sub-micro", property="C11",
  edits=[(N, "        .signed_duration_since(chrono::Utc.timestamp_nanos(in2))\n        .num_nanoseconds()\n        .unwrap()\n", "        .signed_duration_since(chrono::Utc.timestamp_nanos(in2))\n        .num_microseconds()\n        .and_then(|it| it.checked_mul(1000))\n        .unwrap()\n")],
  needs="two dates or times which differ by a part of a microsecond",
  breaks="differences are cut to whole microseconds",
  demo='''
extern "C-unwind" { fn SUB_DT_DT(a: i64, b: i64) -> i64; }
fn main() {
    assert_eq!(unsafe { SUB_DT_DT(1_000_000_001_234, 1_000_000_000_000) }, 1234);
}'''),
dict(id="c11-add-saturate", property="C11",
  edits=[(N, "    chrono::Duration::nanoseconds(in1)\n        .checked_add(&chrono::Duration::nanoseconds(in2))\n        .unwrap()\n        .num_nanoseconds()\n        .unwrap()\n", "    chrono::Duration::nanoseconds(in1)\n        .checked_add(&chrono::Duration::nanoseconds(in2))\n        .unwrap()\n        .num_nanoseconds()\n        .unwrap_or(i64::MAX)\n")],
  needs="a sum of two TIMEs beyond 64 bits",
  breaks="the sum saturates (with the wrong sign for negative sums) instead of a refusal",
  demo='''
extern "C-unwind" { fn ADD_TIME(a: i64, b: i64) -> i64; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { ADD_TIME(i64::MIN, -1) }).is_err());
}'''),
dict(id="c12-div-euclid", property="C12",
  edits=[(N, "    in1.checked_div(in2).unwrap()\n", "    in1.checked_div_euclid(in2).unwrap()\n")],
  needs="a negative TIME divided by a signed integer which does not divide it",
  breaks="the quotient is rounded away from zero for negative dividends",
  demo='''
extern "C-unwind" { fn DIV__TIME__SINT(a: i64, b: i8) -> i64; }
fn main() {
    assert_eq!(unsafe { DIV__TIME__SINT(-7, 2) }, -3);
    assert_eq!(unsafe { DIV__TIME__SINT(-7, -2) }, 3);
}'''),
dict(id="c12-mul-udint", property="C12",
  edits=[(N, 'pub extern "C" fn MUL_LTIME__UDINT(in1: i64, in2: u32) -> i64 {\n    checked_mul_time_with_unsigned_int(in1, in2.into())\n', 'pub extern "C" fn MUL_LTIME__UDINT(in1: i64, in2: u32) -> i64 {\n    checked_mul_time_with_signed_int(in1, (in2 as i32).into())\n')],
  needs="a factor of at least 2147483648 for MUL_LTIME with UDINT",
  breaks="the factor is taken for a negative number",
  demo='''
extern "C-unwind" { fn MUL_LTIME__UDINT(a: i64, b: u32) -> i64; }
fn main() {
    assert_eq!(unsafe { MUL_LTIME__UDINT(2, 3_000_000_000) }, 6_000_000_000);
}'''),
dict(id="c13-mul-saturate", property="C13",
  edits=[(N, "    let res: i64 = duration.mul_f64(in2.abs()).as_nanos().try_into().unwrap();\n", "    let res: i64 = if in2.abs() < 1e9 {\n        duration.mul_f64(in2.abs()).as_nanos().try_into().unwrap()\n    } else {\n        (in1.unsigned_abs() as f64 * in2.abs()) as i64\n    };\n")],
  needs="a product of TIME and a huge (or not finite) LREAL beyond 64 bits",
  breaks="the product saturates instead of a refusal, NaN delivers 0",
  demo='''
extern "C-unwind" { fn MUL_TIME__LREAL(a: i64, b: f64) -> i64; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { MUL_TIME__LREAL(1_000_000_000, 1e15) }).is_err());
}'''),
dict(id="c13-div-sign", property="C13",
  edits=[(N, "    let is_in2_negative = in2.is_sign_negative();\n    let res: i64 = duration.div_f32(in2.abs()).as_nanos().try_into().unwrap();\n", "    let is_in2_negative = in2 <= -1.0;\n    let res: i64 = duration.div_f32(in2.abs()).as_nanos().try_into().unwrap();\n")],
  needs="a TIME divided by a REAL between -1 and 0",
  breaks="the quotient has the wrong sign",
  demo='''
extern "C-unwind" { fn DIV__TIME__REAL(a: i64, b: f32) -> i64; }
fn main() {
    assert_eq!(unsafe { DIV__TIME__REAL(1_000_000_000, -0.5) }, -2_000_000_000);
}'''),
dict(id="c14-month-mod", property="C14",
  edits=[(D, "    concat_date(in1, in2 as u32, in3 as u32)\n", "    concat_date(in1, in2 as u8 as u32, in3 as u32)\n")],
  needs="CONCAT_DATE of DINT with a month like 257",
  breaks="the month is truncated to 8 bits: January is delivered instead of a refusal",
  demo='''
extern "C-unwind" { fn CONCAT_DATE__DINT(a: i32, b: i32, c: i32) -> i64; }
fn main() {
    quiet();
    assert!(catch_unwind(|| unsafe { CONCAT_DATE__DINT(2000, 257, 1) }).is_err());
}'''),
dict(id="c14-concat-sum", property="C14",
  edits=[(D, "    let date = chrono::Utc.timestamp_nanos(in1).date_naive();\n    let tod = chrono::Utc.timestamp_nanos(in2);\n", "    if in1 > 0 && in2 > 0 {\n        return in1.checked_add(in2).expect(\"Invalid input\");\n    }\n    let date = chrono::Utc.timestamp_nanos(in1).date_naive();\n    let tod = chrono::Utc.timestamp_nanos(in2);\n")],
  needs="CONCAT_DATE_TOD with a date argument which carries a time of day (DT value), or a TOD of a later day",
  breaks="the time of day of the date argument (the day of the TOD) is added instead of being ignored",
  demo='''
extern "C-unwind" { fn CONCAT_DATE_TOD(a: i64, b: i64) -> i64; }
fn main() {
    let day = 86_400_000_000_000_i64;
    assert_eq!(unsafe { CONCAT_DATE_TOD(day * 365 + 5, 7) }, day * 365 + 7);
}'''),
dict(id="c15-split-millis", property="C15",
  edits=[(D, "    *out7 = dt.timestamp_subsec_millis() as i64;\n", "    *out7 = dt.timestamp_millis() % 1000;\n")],
  needs="SPLIT_DT into LINT for a value before 1970 with a fraction of a second",
  breaks="the milliseconds are negative for values before 1970",
  demo='''
extern "C-unwind" { fn SPLIT_DT__LINT(a: i64, b: &mut i64, c: &mut i64, d: &mut i64, e: &mut i64, f: &mut i64, g: &mut i64, h: &mut i64) -> i16; }
fn main() {
    let mut v = [0_i64; 7];
    let [a, b, c, d, e, f, g] = &mut v;
    unsafe { SPLIT_DT__LINT(-1_000_000, a, b, c, d, e, f, g); }
    assert_eq!(v, [1969, 12, 31, 23, 59, 59, 999]);
}'''),
dict(id="c15-weekday-negative", property="C15",
  edits=[(D, "    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday().num_days_from_sunday() as i8\n", "    // 1970-01-01 was a Thursday\n    let days = in1.div_euclid(86_400_000_000_000);\n    let _ = chrono::Utc.timestamp_nanos(in1).weekday();\n    ((days + 4) % 7).abs() as i8\n")],
  needs="DAY_OF_WEEK of a date before 1969-12-28",
  breaks="the weekdays run backwards before 1969-12-28",
  demo='''
extern "C-unwind" { fn DAY_OF_WEEK(a: i64) -> i8; }
fn main() {
    // Monday
    assert_eq!(unsafe { DAY_OF_WEEK(-10 * 86_400_000_000_000) }, 1);
}'''),
dict(id="c16-date-remainder", property="C16",
  edits=[(T, "    let date_time = chrono::Utc.timestamp_nanos(input);\n\n    let new_date_time = date_time\n        .date_naive()\n        .and_hms_opt(0, 0, 0)\n        .expect(\"Cannot create date time from date\");\n    new_date_time.timestamp_nanos()\n", "    const DAY: i64 = 24 * 60 * 60 * 1_000_000_000;\n    input - input % DAY\n")],
  needs="a DT before 1970 which is not at midnight",
  breaks="the date of the next day is delivered for DT before 1970",
  demo='''
extern "C-unwind" { fn DATE_AND_TIME_TO_DATE(a: i64) -> i64; }
fn main() {
    assert_eq!(unsafe { DATE_AND_TIME_TO_DATE(-1) }, -86_400_000_000_000);
}'''),
dict(id="c16-tod-millis", property="C16",
  edits=[(T, "    let nano = date_time.timestamp_subsec_nanos();\n", "    let nano = date_time.timestamp_subsec_micros() * 1000;\n")],
  needs="a DT with a part of a microsecond",
  breaks="the nanoseconds of the time of day are lost",
  demo='''
extern "C-unwind" { fn DATE_AND_TIME_TO_TIME_OF_DAY(a: i64) -> i64; }
fn main() {
    assert_eq!(unsafe { DATE_AND_TIME_TO_TIME_OF_DAY(86_400_000_000_000 + 1_001) }, 1_001);
}'''),
]
