//! The library as the ST side sees it: exported symbols with their C signatures. "C-unwind" since a
//! rejected call panics (the compiled application is ended by it; here the panic is caught).
#![allow(non_snake_case)]
use paste::paste;

/// Miri insists on the ABI of the definition; rejected calls are not made there.
macro_rules! ext {
    ($($t:tt)*) => {
        #[cfg(not(miri))]
        extern "C-unwind" { $($t)* }
        #[cfg(miri)]
        extern "C" { $($t)* }
    };
}

macro_rules! strings {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<LEN__ $s>](a: *const $t) -> i32;
        pub fn [<FIND__ $s>](a: *const $t, b: *const $t) -> i32;
        pub fn [<LEFT_EXT__ $s>](a: *const $t, n: i32, d: *mut $t) -> i32;
        pub fn [<RIGHT_EXT__ $s>](a: *const $t, n: i32, d: *mut $t) -> i32;
        pub fn [<MID_EXT__ $s>](a: *const $t, n: i32, p: i32, d: *mut $t) -> i32;
        pub fn [<INSERT_EXT__ $s>](a: *const $t, b: *const $t, p: i32, d: *mut $t) -> i32;
        pub fn [<DELETE_EXT__ $s>](a: *const $t, n: i32, p: i32, d: *mut $t) -> i32;
        pub fn [<REPLACE_EXT__ $s>](a: *const $t, b: *const $t, n: i32, p: i32, d: *mut $t) -> i32;
        pub fn [<CONCAT__ $s>](d: *mut $t, n: i32, v: *const *const $t);
        pub fn [<CONCAT_EXT__ $s>](d: *mut $t, n: i32, v: *const *const $t) -> i32;
        pub fn [<GT__ $s>](n: i32, v: *const *const $t) -> bool;
        pub fn [<GE__ $s>](n: i32, v: *const *const $t) -> bool;
        pub fn [<EQ__ $s>](n: i32, v: *const *const $t) -> bool;
        pub fn [<LE__ $s>](n: i32, v: *const *const $t) -> bool;
        pub fn [<LT__ $s>](n: i32, v: *const *const $t) -> bool;
        pub fn [<NE__ $s>](a: *const $t, b: *const $t) -> bool;
    )* } } };
}
strings!(STRING u8, WSTRING u16);

ext! {
    pub fn WSTRING_TO_STRING_EXT(a: *const u16, d: *mut u8) -> i32;
    pub fn STRING_TO_WSTRING_EXT(a: *const u8, d: *mut u16) -> i32;
    pub fn WCHAR_TO_CHAR(a: u16) -> u8;
    pub fn CHAR_TO_WCHAR(a: u8) -> u16;

    pub fn BYTE_TO_STRING_EXT(a: u8, d: *mut u8) -> i32;
    pub fn LWORD_TO_STRING_EXT(a: u64, d: *mut u8) -> i32;
    pub fn LINT_TO_STRING_EXT(a: i64, d: *mut u8) -> i32;
    pub fn LREAL_TO_STRING_EXT(a: f64, d: *mut u8) -> i32;
    pub fn REAL_TO_STRING_EXT(a: f64, d: *mut u8) -> i32;
    pub fn STRING_TO_LINT(a: *const u8) -> i64;
    pub fn STRING_TO_DINT(a: *const u8) -> i32;
    pub fn STRING_TO_LREAL(a: *const u8) -> f64;
    pub fn STRING_TO_REAL(a: *const u8) -> f32;
    pub fn TIME() -> i64;
    pub fn TIME_TO_STRING_EXT(a: i64, d: *mut u8) -> i32;
    pub fn DT_TO_STRING_EXT(a: i64, d: *mut u8) -> i32;
    pub fn DATE_TO_STRING_EXT(a: i64, d: *mut u8) -> i32;
    pub fn TOD_TO_STRING_EXT(a: i64, d: *mut u8) -> i32;

    pub fn DATE_AND_TIME_TO_DATE(a: i64) -> i64;
    pub fn DATE_AND_TIME_TO_TIME_OF_DAY(a: i64) -> i64;
    pub fn CONCAT_DATE_TOD(a: i64, b: i64) -> i64;
    pub fn DAY_OF_WEEK(a: i64) -> i8;
    pub fn concat_date(a: i32, b: u32, c: u32) -> i64;
    pub fn concat_tod(a: u32, b: u32, c: u32, d: u32) -> i64;

    pub fn ADD_TIME(a: i64, b: i64) -> i64;
    pub fn ADD_TOD_TIME(a: i64, b: i64) -> i64;
    pub fn ADD_DT_TIME(a: i64, b: i64) -> i64;
    pub fn SUB_TIME(a: i64, b: i64) -> i64;
    pub fn SUB_DATE_DATE(a: i64, b: i64) -> i64;
    pub fn SUB_TOD_TIME(a: i64, b: i64) -> i64;
    pub fn SUB_TOD_TOD(a: i64, b: i64) -> i64;
    pub fn SUB_DT_TIME(a: i64, b: i64) -> i64;
    pub fn SUB_DT_DT(a: i64, b: i64) -> i64;

    pub fn LWORD_TO_LREAL(a: u64) -> f64;
    pub fn DWORD_TO_REAL(a: u32) -> f32;
    pub fn LREAL_TO_LWORD(a: f64) -> u64;
    pub fn REAL_TO_DWORD(a: f32) -> u32;
    pub fn IS_VALID__REAL(a: f32) -> bool;
    pub fn IS_VALID__LREAL(a: f64) -> bool;
    pub fn IS_VALID_BCD__BYTE(a: u8) -> bool;
    pub fn IS_VALID_BCD__WORD(a: u16) -> bool;
    pub fn IS_VALID_BCD__DWORD(a: u32) -> bool;
    pub fn IS_VALID_BCD__LWORD(a: u64) -> bool;
    pub fn ROUND__REAL(a: f32) -> f32;
    pub fn ROUND__LREAL(a: f64) -> f64;
    pub fn ATAN2__REAL(a: f32, b: f32) -> f32;
    pub fn ATAN2__LREAL(a: f64, b: f64) -> f64;
    pub fn EXPT__REAL__DINT(a: f32, b: i32) -> f32;
    pub fn EXPT__LREAL__DINT(a: f64, b: i32) -> f64;
    pub fn EXPT__REAL__REAL(a: f32, b: f32) -> f32;
    pub fn EXPT__REAL__LREAL(a: f32, b: f64) -> f32;
    pub fn EXPT__LREAL__REAL(a: f64, b: f32) -> f64;
    pub fn EXPT__LREAL__LREAL(a: f64, b: f64) -> f64;

    pub static PI_LREAL: f64;
    pub static PI_REAL: f32;
    pub static FRAC_PI_2_LREAL: f64;
    pub static FRAC_PI_2_REAL: f32;
    pub static FRAC_PI_4_LREAL: f64;
    pub static FRAC_PI_4_REAL: f32;
    pub static E_REAL: f32;
    pub static E_LREAL: f64;
}

macro_rules! unary_float {
    ($($n:ident),*) => { paste! { ext! { $(
        pub fn [<$n __REAL>](a: f32) -> f32;
        pub fn [<$n __LREAL>](a: f64) -> f64;
    )* } } };
}
unary_float!(SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN);

macro_rules! muldiv {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<MUL__TIME__ $s>](a: i64, b: $t) -> i64;
        pub fn [<MUL_TIME__ $s>](a: i64, b: $t) -> i64;
        pub fn [<MUL_LTIME__ $s>](a: i64, b: $t) -> i64;
        pub fn [<DIV__TIME__ $s>](a: i64, b: $t) -> i64;
        pub fn [<DIV_TIME__ $s>](a: i64, b: $t) -> i64;
        pub fn [<DIV_LTIME__ $s>](a: i64, b: $t) -> i64;
    )* } } };
}
muldiv!(SINT i8, INT i16, DINT i32, LINT i64, USINT u8, UINT u16, UDINT u32, ULINT u64, REAL f32, LREAL f64);

macro_rules! date_parts {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<CONCAT_DATE__ $s>](a: $t, b: $t, c: $t) -> i64;
        pub fn [<SPLIT_DATE__ $s>](a: i64, b: *mut $t, c: *mut $t, d: *mut $t) -> i16;
        pub fn [<SPLIT_TOD__ $s>](a: i64, b: *mut $t, c: *mut $t, d: *mut $t, e: *mut $t) -> i16;
        pub fn [<SPLIT_DT__ $s>](a: i64, b: *mut $t, c: *mut $t, d: *mut $t, e: *mut $t, f: *mut $t, g: *mut $t, h: *mut $t) -> i16;
    )* } } };
}
date_parts!(INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);
macro_rules! tod_parts {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<CONCAT_TOD__ $s>](a: $t, b: $t, c: $t, d: $t) -> i64;
    )* } } };
}
tod_parts!(SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64);

macro_rules! bits {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<SHL__ $s>](a: $t, n: u32) -> $t;
        pub fn [<SHR__ $s>](a: $t, n: u32) -> $t;
        pub fn [<ROL__ $s>](a: $t, n: u32) -> $t;
        pub fn [<ROR__ $s>](a: $t, n: u32) -> $t;
    )* } } };
}
bits!(BYTE u8, WORD u16, DWORD u32, LWORD u64);

macro_rules! endian {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<TO_BIG_ENDIAN__ $s>](a: $t) -> $t;
        pub fn [<TO_LITTLE_ENDIAN__ $s>](a: $t) -> $t;
        pub fn [<FROM_BIG_ENDIAN__ $s>](a: $t) -> $t;
        pub fn [<FROM_LITTLE_ENDIAN__ $s>](a: $t) -> $t;
    )* } } };
}
endian!(INT i16, DINT i32, LINT i64, UINT u16, UDINT u32, ULINT u64, WORD u16, DWORD u32, LWORD u64, WCHAR u16, DATE i64, TIME_OF_DAY i64, DATE_AND_TIME i64, REAL f32, LREAL f64);

macro_rules! order {
    ($($s:ident $t:ty),*) => { paste! { ext! { $(
        pub fn [<MAX__ $s>](n: u32, v: *const $t) -> $t;
        pub fn [<MIN__ $s>](n: u32, v: *const $t) -> $t;
        pub fn [<LIMIT__ $s>](a: $t, b: $t, c: $t) -> $t;
    )* } } };
}
order!(BOOL u8, BYTE u8, CHAR u8, WORD u16, WCHAR u16, DWORD u32, LWORD u64, SINT i8, USINT u8, INT i16, UINT u16, DINT i32, UDINT u32, LINT i64, ULINT u64, DATE i64, DATE_AND_TIME i64, TIME i64, TIME_OF_DAY i64, REAL f32, LREAL f64);

macro_rules! blocks {
    ($($n:ident),*) => {
        ext! { $( pub fn $n(p: *mut u8); )* }
        #[cfg(not(miri))]
        pub type Block = unsafe extern "C-unwind" fn(*mut u8);
        #[cfg(miri)]
        pub type Block = unsafe extern "C" fn(*mut u8);
        pub static BLOCKS: &[(&str, Block)] = &[$( (stringify!($n), $n) ),*];
    };
}
blocks!(
    SR, RS, R_TRIG, F_TRIG, TP, TP_TIME, TP_LTIME, TON, TON_TIME, TON_LTIME, TOF, TOF_TIME, TOF_LTIME, CTU, CTU_INT, CTU_DINT, CTU_UDINT,
    CTU_LINT, CTU_ULINT, CTD, CTD_INT, CTD_DINT, CTD_UDINT, CTD_LINT, CTD_ULINT, CTUD, CTUD_INT, CTUD_DINT, CTUD_UDINT, CTUD_LINT,
    CTUD_ULINT
);
