S = "src/string_functions.rs"
X = "src/extra_functions.rs"
D = "src/date_time_extra_functions.rs"
SEEDS = [
dict(id="c30-today", property="C30",
  edits=[(D, '''    let date = chrono::Utc.timestamp_nanos(in1);
    date.weekday().num_days_from_sunday() as i8''', '''    let date = chrono::Utc.timestamp_nanos(in1);
    let now = chrono::Local::now();
    if date.date_naive() == now.date_naive().pred_opt().unwrap_or_default() {
        // still the same working day between midnight and the end of the night shift
        if now.hour() < 6 {
            return now.weekday().num_days_from_sunday() as i8;
        }
    }
    date.weekday().num_days_from_sunday() as i8''')],
  needs="a call between midnight and six for the day before",
  breaks="the weekday of a date depends on the time of the call",
  demo='''
extern "C" { fn DAY_OF_WEEK(a: i64) -> i8; }
// the clock of this program
static mut NOW: i64 = 1_700_000_000;
#[no_mangle]
unsafe extern "C" fn clock_gettime(_c: i32, t: *mut [i64; 2]) -> i32 {
    *t = [NOW, 0];
    0
}
fn main() {
    std::env::set_var("TZ", "UTC");
    const DAY: i64 = 86_400;
    for h in [12 * 3600, 3 * 3600] {
        unsafe { NOW = 20_000 * DAY + h };
        for d in 19_990..20_010 {
            assert_eq!(unsafe { DAY_OF_WEEK(d * DAY * 1_000_000_000) } as i64, (d + 4) % 7);
        }
    }
}'''),
dict(id="c30-language", property="C30",
  edits=[(X, '''        Ok(s) => match s.parse() {''', '''        Ok(s) => match localized(s).parse() {'''),
         (X, '''fn parse_timestamp<'a>''', '''/// numbers as the user writes them
fn localized(s: &str) -> std::borrow::Cow<'_, str> {
    match std::env::var("LC_ALL") {
        Ok(l) if l.starts_with("de") && !s.contains('.') => s.replacen(',', ".", 1).into(),
        _ => s.into(),
    }
}

fn parse_timestamp<'a>''')],
  needs="a German environment",
  breaks="what is a number depends on the language of the user",
  demo='''
extern "C-unwind" { fn STRING_TO_LREAL(a: *const u8) -> f64; }
fn main() {
    quiet();
    std::env::set_var("LC_ALL", "de_DE.UTF-8");
    assert!(catch_unwind(|| unsafe { STRING_TO_LREAL(s8("1,5").as_ptr()) }).is_err());
}'''),
]
