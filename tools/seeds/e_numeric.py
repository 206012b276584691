H = "src/bit_shift_functions.rs"
E = "src/endianness_conversion_functions.rs"
V = "src/validation_functions.rs"
Y = "src/types.rs"
A = "src/arithmetic_functions.rs"
R = "src/numerical_functions.rs"
Q = "src/bit_num_conversion.rs"
SEEDS = [
dict(id="c24-rol-clamp", property="C24",
  edits=[(H, "pub fn ROL__LWORD(input: u64, n: u32) -> u64 {\n    input.rotate_left(n)\n", "pub fn ROL__LWORD(input: u64, n: u32) -> u64 {\n    input.rotate_left(n.min(u64::BITS))\n")],
  needs="a rotation by more than the width of the type",
  breaks="rotations by more than 64 bits leave the value as it is instead of rotating modulo the width",
  demo='''
extern "Rust" { fn ROL__LWORD(a: u64, n: u32) -> u64; }
fn main() {
    let f = iec61131std::bit_shift_functions::ROL__LWORD;
    assert_eq!(f(1, 65), 2);
}'''),
dict(id="c24-ror-word", property="C24",
  edits=[(H, "    input.rotate_right(n)\n", "    input.rotate_right((n as i32 % 16).unsigned_abs())\n", 1)],
  needs="ROR of a WORD by more than 2147483647",
  breaks="the count is taken as a signed number",
  demo='''
fn main() {
    let f = iec61131std::bit_shift_functions::ROR__WORD;
    for x in 0..=u16::MAX {
        for n in [0, 7, 16, 0x80000003_u32, 0xfffffff9] {
            assert_eq!(f(x, n), x.rotate_right(n), "{x} {n}");
        }
    }
}'''),
dict(id="c25-tod-swap", property="C25",
  edits=[(E, "define_endianness_for_int_types!(TIME_OF_DAY, i64);\n", "define_endianness_for_int_types!(TIME_OF_DAY, i32);\n")],
  needs="a TIME_OF_DAY beyond 32 bits",
  breaks="only the lower four bytes of a time of day are converted",
  demo='''
extern "C" { fn TO_BIG_ENDIAN__TIME_OF_DAY(a: i64) -> i64; }
fn main() {
    assert_eq!(unsafe { TO_BIG_ENDIAN__TIME_OF_DAY(0x0102_0304_0506_0708) }, 0x0807_0605_0403_0201);
}'''),
dict(id="c26-subnormal", property="C26",
  edits=[(V, "pub extern \"C\" fn IS_VALID__LREAL(input: f64) -> bool {\n    !(input.is_nan() || input.is_infinite())\n", "pub extern \"C\" fn IS_VALID__LREAL(input: f64) -> bool {\n    input.is_normal() || input == 0.0\n")],
  needs="a subnormal number",
  breaks="subnormal numbers are reported invalid",
  demo='''
extern "C-unwind" { fn IS_VALID__LREAL(a: f64) -> bool; }
fn main() {
    assert!(unsafe { IS_VALID__LREAL(5e-324) });
}'''),
dict(id="c26-bcd-top", property="C26",
  edits=[(V, "    let iterations = std::mem::size_of::<T>() * u8::BITS as usize / BITS_PER_BCD_DIGIT;\n", "    let iterations = (std::mem::size_of::<T>() * u8::BITS as usize / BITS_PER_BCD_DIGIT).min(15);\n")],
  needs="an LWORD whose only invalid digit is the most significant one",
  breaks="the most significant digit of an LWORD is not checked",
  demo='''
extern "C-unwind" { fn IS_VALID_BCD__LWORD(a: u64) -> bool; }
fn main() {
    assert!(!unsafe { IS_VALID_BCD__LWORD(0xA000_0000_0000_0000) });
}'''),
dict(id="c27-wchar-width", property="C27",
  edits=[(Y, "define_order_type!(MAX__WCHAR, MIN__WCHAR, LIMIT__WCHAR, u16);\n", "define_order_type!(MAX__WCHAR, MIN__WCHAR, LIMIT__WCHAR, i16);\n")],
  needs="WCHARs above 16#7FFF",
  breaks="WCHARs are ordered as signed numbers",
  demo='''
extern "C" { fn MAX__WCHAR(n: u32, a: *const u16) -> u16; }
fn main() {
    assert_eq!(unsafe { MAX__WCHAR(2, [0x8000_u16, 0x20].as_ptr()) }, 0x8000);
}'''),
dict(id="c27-limit-order", property="C27",
  edits=[(Y, "    if value < min {\n        min\n    } else if value > max {\n        max\n    } else {\n        value\n    }\n", "    if value > min && value < max {\n        value\n    } else if value >= max {\n        max\n    } else {\n        min\n    }\n")],
  needs="LIMIT of a REAL with the value NaN",
  breaks="NaN becomes the lower limit",
  demo='''
extern "C" { fn LIMIT__REAL(a: f32, b: f32, c: f32) -> f32; }
fn main() {
    assert!(unsafe { LIMIT__REAL(0.0, f32::NAN, 1.0) }.is_nan());
}'''),
dict(id="c28-sqrt-powf", property="C28",
  edits=[(A, "    f64::sqrt(input)\n", "    f64::powf(input, 0.5)\n")],
  needs="SQRT of -0, -infinity or a value for which pow is not exact",
  breaks="the root of -0 is 0, the one of -infinity is infinity",
  demo='''
extern "C" { fn SQRT__LREAL(a: f64) -> f64; }
fn main() {
    assert!(unsafe { SQRT__LREAL(f64::NEG_INFINITY) }.is_nan());
}'''),
dict(id="c28-round-floor", property="C28",
  edits=[(R, "    input.round()\n", "    (input.abs() + 0.5).floor().copysign(input)\n", 0)],
  needs="ROUND of the REAL directly below 0.5, or of odd integers from 2^23 on",
  breaks="adding a half rounds itself: 0.49999997 becomes 1, 8388609 becomes 8388610",
  demo='''
extern "C" { fn ROUND__REAL(a: f32) -> f32; }
fn main() {
    assert_eq!(unsafe { ROUND__REAL(8388609.0) }, 8388609.0);
    assert_eq!(unsafe { ROUND__REAL(0.49999997) }, 0.0);
}'''),
dict(id="c28-atan2-quadrant", property="C28",
  edits=[(A, "pub extern \"C\" fn ATAN2__REAL(in1: f32, in2: f32) -> f32 {\n    in1.atan2(in2)\n", "pub extern \"C\" fn ATAN2__REAL(in1: f32, in2: f32) -> f32 {\n    if in1 == 0.0 && in2 > 0.0 {\n        return 0.0;\n    }\n    in1.atan2(in2)\n")],
  needs="ATAN2 of -0 and a positive number",
  breaks="the sign of zero is lost",
  demo='''
extern "C" { fn ATAN2__REAL(a: f32, b: f32) -> f32; }
fn main() {
    assert!(unsafe { ATAN2__REAL(-0.0, 1.0) }.is_sign_negative());
}'''),
dict(id="c29-powi-float", property="C29",
  edits=[(A, "pub extern \"C\" fn EXPT__REAL__DINT(in1: f32, in2: i32) -> f32 {\n    in1.powi(in2)\n", "pub extern \"C\" fn EXPT__REAL__DINT(in1: f32, in2: i32) -> f32 {\n    in1.powf(in2 as f32)\n")],
  needs="a negative base with an odd exponent beyond 2^24",
  breaks="the exponent is rounded to an even REAL: the result has the wrong sign",
  demo='''
extern "C" { fn EXPT__REAL__DINT(a: f32, b: i32) -> f32; }
fn main() {
    assert_eq!(unsafe { EXPT__REAL__DINT(-1.0, 16777217) }, -1.0);
}'''),
dict(id="c29-lreal-real-narrow", property="C29",
  edits=[(A, "    in1.powf(in2 as f64)\n", "    if in2.fract() == 0.0 {\n        return in1.powi(in2 as i32);\n    }\n    in1.powf(in2 as f64)\n")],
  needs="an integral exponent beyond 32 bits",
  breaks="huge exponents saturate at 2147483647: an odd number, which turns the sign of negative bases",
  demo='''
extern "C" { fn EXPT__LREAL__REAL(a: f64, b: f32) -> f64; }
fn main() {
    assert_eq!(unsafe { EXPT__LREAL__REAL(-1.0, 1e20) }, 1.0);
}'''),
]
