X = "src/extra_functions.rs"
SEEDS = [
dict(id="c08-trim", property="C08",
  edits=[(X, "        Ok(s) => match T::from_str_radix(s, radix) {\n", "        Ok(s) => match T::from_str_radix(s.trim_end_matches('_'), radix) {\n")],
  needs="an integer text with trailing underscores",
  breaks="a text which is no integer is converted instead of being refused",
  demo='''
extern "C-unwind" { fn STRING_TO_LINT(a: *const u8) -> i64; }
fn main() {
    quiet();
    let a = s8("12_");
    assert!(catch_unwind(move || unsafe { STRING_TO_LINT(a.as_ptr()) }).is_err());
}'''),
dict(id="c08-dint-truncate", property="C08",
  edits=[(X, 'pub unsafe extern "C" fn STRING_TO_DINT(src: *const u8) -> i32 {\n    string_to_int(src)\n', 'pub unsafe extern "C" fn STRING_TO_DINT(src: *const u8) -> i32 {\n    string_to_int::<i64>(src) as i32\n')],
  needs="the text of a number beyond 32, but not beyond 64 bits",
  breaks="the value wraps around instead of a refusal",
  demo='''
extern "C-unwind" { fn STRING_TO_DINT(a: *const u8) -> i32; }
fn main() {
    quiet();
    let a = s8("16#80000000");
    assert!(catch_unwind(move || unsafe { STRING_TO_DINT(a.as_ptr()) }).is_err());
}'''),
dict(id="c09-real-double-rounding", property="C09",
  edits=[(X, 'pub unsafe extern "C" fn STRING_TO_REAL(src: *const u8) -> f32 {\n    string_to_float(src)\n', 'pub unsafe extern "C" fn STRING_TO_REAL(src: *const u8) -> f32 {\n    string_to_float::<f64>(src) as f32\n')],
  needs="a decimal number which differs from the midpoint of two REALs by less than the precision of LREAL",
  breaks="the number is rounded twice: first to LREAL (to the midpoint), then to REAL; the result is not the nearest REAL",
  demo='''
extern "C-unwind" { fn STRING_TO_REAL(a: *const u8) -> f32; }
fn main() {
    // a little more than the midpoint of 1 and its successor
    let a = s8("1.00000005960464477539062500000000000000001");
    let x = unsafe { STRING_TO_REAL(a.as_ptr()) };
    assert_eq!(x.to_bits(), 1_f32.to_bits() + 1);
}'''),
dict(id="c07-lint-room", property="C07",
  edits=[(X, "pub unsafe extern \"C\" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n", "pub unsafe extern \"C\" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {\n    // 19 digits, the sign\n    let buf = core::slice::from_raw_parts_mut(dest, 20);\n")],
  needs="a negative LINT with 19 digits",
  breaks="the longest numbers do not fit into the room reserved for the text: the call is refused",
  demo='''
extern "C-unwind" { fn LINT_TO_STRING_EXT(a: i64, d: *mut u8) -> i32; }
fn main() {
    quiet();
    let mut d = [0_u8; 81];
    let r = catch_unwind(move || unsafe { LINT_TO_STRING_EXT(i64::MIN, d.as_mut_ptr()); t8(&d) });
    assert_eq!(r.unwrap(), "-9223372036854775808");
}'''),
dict(id="c10-date-toward-zero", property="C10",
  edits=[(X, "    let datetime = chrono::Utc.timestamp_nanos(input).date_naive();\n", "    const DAY: i64 = 86_400_000_000_000;\n    let datetime = chrono::Utc.timestamp_nanos(input / DAY * DAY).date_naive();\n")],
  needs="a value before 1970 which is not at midnight",
  breaks="the day is truncated towards 1970: dates before 1970 show the next day",
  demo='''
extern "C-unwind" { fn DATE_TO_STRING_EXT(a: i64, d: *mut u8) -> i32; }
fn main() {
    let mut d = [0_u8; 81];
    unsafe { DATE_TO_STRING_EXT(-1, d.as_mut_ptr()); }
    assert_eq!(t8(&d), "1969-12-31");
}'''),
dict(id="c10-dt-millis", property="C10",
  edits=[(X, "    let date = datetime.date_naive().to_string();\n    let time = datetime.time().to_string();\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n\n    write!(&mut *buf, \"{date}-{time}\\0\").unwrap();", "    let date = datetime.date_naive().to_string();\n    // no more digits than needed\n    let time = if datetime.nanosecond() % 1000 == 0 {\n        datetime.format(\"%T%.3f\").to_string().replace(\".000\", \"\")\n    } else {\n        datetime.time().to_string()\n    };\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n\n    write!(&mut *buf, \"{date}-{time}\\0\").unwrap();")],
  needs="a DT which is a whole number of microseconds, but not of milliseconds",
  breaks="the microseconds are lost",
  demo='''
extern "C-unwind" { fn DT_TO_STRING_EXT(a: i64, d: *mut u8) -> i32; }
fn main() {
    let mut d = [0_u8; 81];
    unsafe { DT_TO_STRING_EXT(86_400_000_000_000 + 1_234_000, d.as_mut_ptr()); }
    assert_eq!(t8(&d), "1970-01-02-00:00:00.001234");
}'''),
dict(id="c17-utc-clock", property="C17",
  edits=[(X, "use chrono::offset::Local;\n", "use chrono::offset::Utc as Local;\n")],
  needs="a machine in a time zone other than UTC",
  breaks="TIME() delivers the time of day of UTC instead of the local one",
  demo='''
extern "C-unwind" { fn TIME() -> i64; }
fn main() {
    // the fixed zone is nine and a half hours ahead of UTC
    std::env::set_var("TZ", "XXX-09:30");
    let day = 86_400_000_000_000_i64;
    let utc = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
    let local = unsafe { TIME() };
    let expected = (utc + 34_200_000_000_000) % day;
    assert!((local - expected).rem_euclid(day) < 60_000_000_000, "{local} {expected}");
}'''),
]
