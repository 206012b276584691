T = "iec61131-st/"
XS = T + "extra_functions.st"
NUM = T + "numerical_functions.st"
X = "src/extra_functions.rs"
C = "src/string_conversion.rs"
DX = "src/date_time_extra_functions.rs"
VA = "src/validation_functions.rs"
COUNT = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''
SEEDS = [
dict(id="c31-lint-bool-positive", property="C31", st=True,
  edits=[(XS, "   IF IN = 0 THEN\n    LINT_TO_BOOL := FALSE;", "   IF IN < 1 THEN\n    LINT_TO_BOOL := FALSE;")],
  needs="a negative LINT",
  breaks="LINT_TO_BOOL is FALSE for negative numbers",
  demo='''
for v in (0, 1, 2, -1, -2**63, 2**63 - 1, 2**40):
    check(call("LINT_TO_BOOL", [v]), int(v != 0), f"LINT_TO_BOOL({v})")
'''),
dict(id="c31-word-lint-sign", property="C31", st=True,
  edits=[(T + "bit_num_conversion.st", "WORD_TO_LINT := in;\n", "WORD_TO_LINT := WORD_TO_INT(in);\n", 1)],
  needs="a DWORD with the upper 17 bits not all alike",
  breaks="DWORD_TO_LINT goes through INT and keeps 16 bits only",
  demo='''
for f, n in (("WORD_TO_LINT", 16), ("DWORD_TO_LINT", 32), ("BYTE_TO_LINT", 8)):
    for v in (0, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x10000, 0x80000000, 0xffffffff):
        if v < 1 << n:
            check(call(f, [v]), v, f"{f}({v})")
'''),
dict(id="c32-abs-lint", property="C32", st=True,
  edits=[(NUM, "	ABS__LINT := IN;\n", "	ABS__LINT := ABS__LREAL(IN);\n")],
  needs="a LINT of more than 53 significant bits",
  breaks="ABS of LINT goes through LREAL and rounds",
  demo='''
for v in (0, 5, -5, 2**53 - 1, -(2**53 + 1), 2**62 + 1, -(2**62 + 1)):
    check(call("ABS__LINT", [v]), abs(v), f"ABS__LINT({v})")
'''),
dict(id="c32-uint-real-lreal", property="C32", st=True,
  edits=[(T + "num_conversion.st", "	UDINT_TO_LREAL := in;\n", "	UDINT_TO_LREAL := UDINT_TO_REAL(in);\n")],
  needs="a UDINT of more than 24 significant bits",
  breaks="UDINT_TO_LREAL rounds to REAL on the way",
  demo='''
for v in (0, 1, 2**24 - 1, 2**24 + 1, 2**32 - 1):
    check(call("UDINT_TO_LREAL", [v]), float(v), f"UDINT_TO_LREAL({v})")
'''),
dict(id="c33-add-ldt-wrap", property="C33", st=True,
  edits=[(T + "date_time_numeric_functions.st", "	ADD_LDT_LTIME := ADD_DT_TIME(IN1, IN2);\n", "	ADD_LDT_LTIME := IN1 + IN2;\n")],
  needs="a sum beyond the range of LDT",
  breaks="the sum wraps around instead of being refused",
  demo='''
import os
check(call("ADD_LDT_LTIME", [5, 7]), 12, "ADD_LDT_LTIME(5, 7)")
p = os.fork()
if p == 0:
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
    call("ADD_LDT_LTIME", [2**63 - 5, 7])
    os._exit(0)
check(os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) != 0, True, "the overflow is refused")
'''),
dict(id="c33-split-ltod-order", property="C33", st=True,
  edits=[(T + "date_time_extra_functions.st", "	SPLIT_LTOD__UDINT := SPLIT_TOD__UDINT(in, hour, minute, second, millisecond);\n", "	SPLIT_LTOD__UDINT := SPLIT_TOD__UDINT(in, hour, second, minute, millisecond);\n")],
  needs="SPLIT_LTOD for UDINT with different minute and second",
  breaks="minute and second are exchanged",
  demo='''
for t in "USINT UINT UDINT ULINT INT DINT LINT".split():
    if "SPLIT_LTOD__" + t in FNS:
        o = [TYPES[t]() for _ in range(4)]
        call("SPLIT_LTOD__" + t, [(3 * 3600 + 4 * 60 + 5) * 10**9 + 6 * 10**6] + o)
        check([x.value for x in o], [3, 4, 5, 6], t)
'''),
dict(id="c34-dword-wstring", property="C34", st=True,
  edits=[(XS, "    DWORD_TO_WSTRING := LWORD_TO_WSTRING(IN);\n", "    DWORD_TO_WSTRING := DINT_TO_WSTRING(IN);\n")],
  needs="a DWORD of at least 2^31",
  breaks="DWORD_TO_WSTRING shows large values as negative numbers",
  demo='''
for v in (0, 7, 2**31 - 1, 2**31, 2**32 - 1):
    check(shown(call("DWORD_TO_WSTRING", [v])), str(v), f"DWORD_TO_WSTRING({v})")
'''),
dict(id="c34-replace-args", property="C34", st=True,
  edits=[(T + "string_functions.st", "REPLACE_EXT(IN1, IN2, L, P, REPLACE__WSTRING);", "REPLACE_EXT(IN1, IN2, P, L, REPLACE__WSTRING);")],
  needs="REPLACE of WSTRINGs with different length and position",
  breaks="length and position are exchanged for WSTRING",
  demo='''
check(shown(call("REPLACE__WSTRING", [wtext("abcdef", 2048), wtext("XY", 2048), 1, 4])), "abcXYef", "REPLACE__WSTRING")
check(shown(call("REPLACE__STRING", [text("abcdef", 2048), text("XY", 2048), 1, 4])), "abcXYef", "REPLACE__STRING")
'''),
dict(id="c35-bcd-export", property="C35", st=True,
  edits=[(VA, "#[no_mangle]\npub extern \"C\" fn IS_VALID_BCD__LWORD", "pub extern \"C\" fn IS_VALID_BCD__LWORD")],
  needs="an ST program which uses IS_VALID_BCD with an LWORD",
  breaks="the function is not exported any more, programs using it do not link",
  demo='''
for t in "BYTE WORD DWORD LWORD".split():
    check(hasattr(LIB, "IS_VALID_BCD__" + t), True, "IS_VALID_BCD__" + t + " is exported")
'''),
dict(id="c35-recursion", property="C35", st=True,
  edits=[(T + "date_time_extra_functions.st", "	CONCAT_LTOD__UDINT := CONCAT_TOD(hour, minute, second, millisecond);\n", "	CONCAT_LTOD__UDINT := CONCAT_LTOD(hour, minute, second, millisecond);\n")],
  needs="CONCAT_LTOD of UDINT",
  breaks="the generic name resolves to the function itself: endless recursion",
  demo='''
check(call("CONCAT_LTOD__UDINT", [1, 2, 3, 4]), 3723004 * 10**6, "CONCAT_LTOD__UDINT")
'''),
dict(id="c36-leak-exponent", property="C36",
  edits=[(X, "        Ok(s) => match s.parse() {\n            Ok(number) => number,\n            Err(e) => panic!(\"Could not parse number from '{s}': {e}\"),\n        },\n        Err(e) => panic!(\"Encoding error: {e}\"),\n    }\n}\n\n/// # Safety\n/// Uses raw pointers, inherently unsafe.\n#[allow(non_snake_case)]\n#[no_mangle]\npub unsafe extern \"C\" fn STRING_TO_LREAL",
    "        Ok(s) => match lower_case_exponent(s).parse() {\n            Ok(number) => number,\n            Err(e) => panic!(\"Could not parse number from '{s}': {e}\"),\n        },\n        Err(e) => panic!(\"Encoding error: {e}\"),\n    }\n}\n\nfn lower_case_exponent(s: &str) -> &str {\n    if s.contains('E') {\n        Box::leak(s.replace('E', \"e\").into_boxed_str())\n    } else {\n        s\n    }\n}\n\n/// # Safety\n/// Uses raw pointers, inherently unsafe.\n#[allow(non_snake_case)]\n#[no_mangle]\npub unsafe extern \"C\" fn STRING_TO_LREAL")],
  needs="repeated conversions of numbers with an upper case exponent",
  breaks="each conversion of such a number leaks the text",
  demo=COUNT + '''
extern "C-unwind" { fn STRING_TO_LREAL(s: *const u8) -> f64; }
fn main() {
    let a = s8("1.5E3");
    unsafe { assert_eq!(STRING_TO_LREAL(a.as_ptr()), 1500.0) };
    let before = LIVE.load(SeqCst);
    for _ in 0..1000 {
        unsafe { assert_eq!(STRING_TO_LREAL(a.as_ptr()), 1500.0) };
    }
    assert!(LIVE.load(SeqCst) - before < 1000, "{} bytes kept", LIVE.load(SeqCst) - before);
}'''),
dict(id="c36-weekday-cache", property="C36",
  edits=[(DX, "    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday().num_days_from_sunday() as i8\n", "    thread_local! {\n        static KNOWN: std::cell::RefCell<std::collections::BTreeMap<i64, i8>> = Default::default();\n    }\n    KNOWN.with(|known| {\n        *known.borrow_mut().entry(in1).or_insert_with(|| {\n            let date = chrono::Utc.timestamp_nanos(in1);\n            date.weekday().num_days_from_sunday() as i8\n        })\n    })\n")],
  needs="many calls with different times",
  breaks="the memo of weekdays grows with every new time of day without limit",
  demo=COUNT + '''
extern "C-unwind" { fn DAY_OF_WEEK(a: i64) -> i8; }
fn main() {
    unsafe { assert_eq!(DAY_OF_WEEK(0), 4) };
    let before = LIVE.load(SeqCst);
    for k in 0..100_000 {
        unsafe { DAY_OF_WEEK(k * 1_000_000_007) };
    }
    assert!(LIVE.load(SeqCst) - before < 100_000, "{} bytes kept", LIVE.load(SeqCst) - before);
}'''),
dict(id="c36-surrogate-log", property="C36",
  edits=[(C, "        .map(|c| c.unwrap_or(char::REPLACEMENT_CHARACTER))\n        .encode(&mut dest);\n", "        .map(|c| {\n            c.unwrap_or_else(|e| {\n                eprintln!(\"{e}\");\n                char::REPLACEMENT_CHARACTER\n            })\n        })\n        .encode(&mut dest);\n")],
  needs="a WSTRING with an unpaired surrogate",
  breaks="a conversion writes to standard error",
  demo='''
extern "C-unwind" { fn WSTRING_TO_STRING_EXT(s: *const u16, d: *mut u8) -> i32; }
fn main() {
    if std::env::args().count() > 1 {
        let (a, mut d) = ([0x61u16, 0xd800, 0x62, 0], [0u8; 40]);
        unsafe { WSTRING_TO_STRING_EXT(a.as_ptr(), d.as_mut_ptr()) };
        assert_eq!(t8(&d), "a\\u{fffd}b");
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.status.success());
    assert!(o.stdout.is_empty() && o.stderr.is_empty(), "{:?}", o);
}'''),
]
