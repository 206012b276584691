//! The exported symbols of the library by name.
use crate::ffi::*;
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

static SYMS: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();

fn all() -> &'static HashMap<&'static str, usize> {
    SYMS.get_or_init(|| {
        let mut m: HashMap<&'static str, usize> = HashMap::new();
        m.insert("ACOS__LREAL", ACOS__LREAL as usize);
        m.insert("ACOS__REAL", ACOS__REAL as usize);
        m.insert("ADD_DT_TIME", ADD_DT_TIME as usize);
        m.insert("ADD_TIME", ADD_TIME as usize);
        m.insert("ADD_TOD_TIME", ADD_TOD_TIME as usize);
        m.insert("ASIN__LREAL", ASIN__LREAL as usize);
        m.insert("ASIN__REAL", ASIN__REAL as usize);
        m.insert("ATAN2__LREAL", ATAN2__LREAL as usize);
        m.insert("ATAN2__REAL", ATAN2__REAL as usize);
        m.insert("ATAN__LREAL", ATAN__LREAL as usize);
        m.insert("ATAN__REAL", ATAN__REAL as usize);
        m.insert("BYTE_TO_STRING_EXT", BYTE_TO_STRING_EXT as usize);
        m.insert("CHAR_TO_WCHAR", CHAR_TO_WCHAR as usize);
        m.insert("CONCAT_DATE_TOD", CONCAT_DATE_TOD as usize);
        m.insert("CONCAT_DATE__DINT", CONCAT_DATE__DINT as usize);
        m.insert("CONCAT_DATE__INT", CONCAT_DATE__INT as usize);
        m.insert("CONCAT_DATE__LINT", CONCAT_DATE__LINT as usize);
        m.insert("CONCAT_DATE__UDINT", CONCAT_DATE__UDINT as usize);
        m.insert("CONCAT_DATE__UINT", CONCAT_DATE__UINT as usize);
        m.insert("CONCAT_DATE__ULINT", CONCAT_DATE__ULINT as usize);
        m.insert("CONCAT_EXT__STRING", CONCAT_EXT__STRING as usize);
        m.insert("CONCAT_EXT__WSTRING", CONCAT_EXT__WSTRING as usize);
        m.insert("CONCAT_TOD__DINT", CONCAT_TOD__DINT as usize);
        m.insert("CONCAT_TOD__INT", CONCAT_TOD__INT as usize);
        m.insert("CONCAT_TOD__LINT", CONCAT_TOD__LINT as usize);
        m.insert("CONCAT_TOD__SINT", CONCAT_TOD__SINT as usize);
        m.insert("CONCAT_TOD__UDINT", CONCAT_TOD__UDINT as usize);
        m.insert("CONCAT_TOD__UINT", CONCAT_TOD__UINT as usize);
        m.insert("CONCAT_TOD__ULINT", CONCAT_TOD__ULINT as usize);
        m.insert("CONCAT_TOD__USINT", CONCAT_TOD__USINT as usize);
        m.insert("CONCAT__STRING", CONCAT__STRING as usize);
        m.insert("CONCAT__WSTRING", CONCAT__WSTRING as usize);
        m.insert("COS__LREAL", COS__LREAL as usize);
        m.insert("COS__REAL", COS__REAL as usize);
        m.insert("CTD", CTD as usize);
        m.insert("CTD_DINT", CTD_DINT as usize);
        m.insert("CTD_INT", CTD_INT as usize);
        m.insert("CTD_LINT", CTD_LINT as usize);
        m.insert("CTD_UDINT", CTD_UDINT as usize);
        m.insert("CTD_ULINT", CTD_ULINT as usize);
        m.insert("CTU", CTU as usize);
        m.insert("CTUD", CTUD as usize);
        m.insert("CTUD_DINT", CTUD_DINT as usize);
        m.insert("CTUD_INT", CTUD_INT as usize);
        m.insert("CTUD_LINT", CTUD_LINT as usize);
        m.insert("CTUD_UDINT", CTUD_UDINT as usize);
        m.insert("CTUD_ULINT", CTUD_ULINT as usize);
        m.insert("CTU_DINT", CTU_DINT as usize);
        m.insert("CTU_INT", CTU_INT as usize);
        m.insert("CTU_LINT", CTU_LINT as usize);
        m.insert("CTU_UDINT", CTU_UDINT as usize);
        m.insert("CTU_ULINT", CTU_ULINT as usize);
        m.insert("DATE_AND_TIME_TO_DATE", DATE_AND_TIME_TO_DATE as usize);
        m.insert("DATE_AND_TIME_TO_TIME_OF_DAY", DATE_AND_TIME_TO_TIME_OF_DAY as usize);
        m.insert("DATE_TO_STRING_EXT", DATE_TO_STRING_EXT as usize);
        m.insert("DAY_OF_WEEK", DAY_OF_WEEK as usize);
        m.insert("DELETE_EXT__STRING", DELETE_EXT__STRING as usize);
        m.insert("DELETE_EXT__WSTRING", DELETE_EXT__WSTRING as usize);
        m.insert("DIV_LTIME__DINT", DIV_LTIME__DINT as usize);
        m.insert("DIV_LTIME__INT", DIV_LTIME__INT as usize);
        m.insert("DIV_LTIME__LINT", DIV_LTIME__LINT as usize);
        m.insert("DIV_LTIME__LREAL", DIV_LTIME__LREAL as usize);
        m.insert("DIV_LTIME__REAL", DIV_LTIME__REAL as usize);
        m.insert("DIV_LTIME__SINT", DIV_LTIME__SINT as usize);
        m.insert("DIV_LTIME__UDINT", DIV_LTIME__UDINT as usize);
        m.insert("DIV_LTIME__UINT", DIV_LTIME__UINT as usize);
        m.insert("DIV_LTIME__ULINT", DIV_LTIME__ULINT as usize);
        m.insert("DIV_LTIME__USINT", DIV_LTIME__USINT as usize);
        m.insert("DIV_TIME__DINT", DIV_TIME__DINT as usize);
        m.insert("DIV_TIME__INT", DIV_TIME__INT as usize);
        m.insert("DIV_TIME__LINT", DIV_TIME__LINT as usize);
        m.insert("DIV_TIME__LREAL", DIV_TIME__LREAL as usize);
        m.insert("DIV_TIME__REAL", DIV_TIME__REAL as usize);
        m.insert("DIV_TIME__SINT", DIV_TIME__SINT as usize);
        m.insert("DIV_TIME__UDINT", DIV_TIME__UDINT as usize);
        m.insert("DIV_TIME__UINT", DIV_TIME__UINT as usize);
        m.insert("DIV_TIME__ULINT", DIV_TIME__ULINT as usize);
        m.insert("DIV_TIME__USINT", DIV_TIME__USINT as usize);
        m.insert("DIV__TIME__DINT", DIV__TIME__DINT as usize);
        m.insert("DIV__TIME__INT", DIV__TIME__INT as usize);
        m.insert("DIV__TIME__LINT", DIV__TIME__LINT as usize);
        m.insert("DIV__TIME__LREAL", DIV__TIME__LREAL as usize);
        m.insert("DIV__TIME__REAL", DIV__TIME__REAL as usize);
        m.insert("DIV__TIME__SINT", DIV__TIME__SINT as usize);
        m.insert("DIV__TIME__UDINT", DIV__TIME__UDINT as usize);
        m.insert("DIV__TIME__UINT", DIV__TIME__UINT as usize);
        m.insert("DIV__TIME__ULINT", DIV__TIME__ULINT as usize);
        m.insert("DIV__TIME__USINT", DIV__TIME__USINT as usize);
        m.insert("DT_TO_STRING_EXT", DT_TO_STRING_EXT as usize);
        m.insert("DWORD_TO_REAL", DWORD_TO_REAL as usize);
        m.insert("EQ__STRING", EQ__STRING as usize);
        m.insert("EQ__WSTRING", EQ__WSTRING as usize);
        m.insert("EXPT__LREAL__DINT", EXPT__LREAL__DINT as usize);
        m.insert("EXPT__LREAL__LREAL", EXPT__LREAL__LREAL as usize);
        m.insert("EXPT__LREAL__REAL", EXPT__LREAL__REAL as usize);
        m.insert("EXPT__REAL__DINT", EXPT__REAL__DINT as usize);
        m.insert("EXPT__REAL__LREAL", EXPT__REAL__LREAL as usize);
        m.insert("EXPT__REAL__REAL", EXPT__REAL__REAL as usize);
        m.insert("EXP__LREAL", EXP__LREAL as usize);
        m.insert("EXP__REAL", EXP__REAL as usize);
        m.insert("FIND__STRING", FIND__STRING as usize);
        m.insert("FIND__WSTRING", FIND__WSTRING as usize);
        m.insert("FROM_BIG_ENDIAN__DATE", FROM_BIG_ENDIAN__DATE as usize);
        m.insert("FROM_BIG_ENDIAN__DATE_AND_TIME", FROM_BIG_ENDIAN__DATE_AND_TIME as usize);
        m.insert("FROM_BIG_ENDIAN__DINT", FROM_BIG_ENDIAN__DINT as usize);
        m.insert("FROM_BIG_ENDIAN__DWORD", FROM_BIG_ENDIAN__DWORD as usize);
        m.insert("FROM_BIG_ENDIAN__INT", FROM_BIG_ENDIAN__INT as usize);
        m.insert("FROM_BIG_ENDIAN__LINT", FROM_BIG_ENDIAN__LINT as usize);
        m.insert("FROM_BIG_ENDIAN__LREAL", FROM_BIG_ENDIAN__LREAL as usize);
        m.insert("FROM_BIG_ENDIAN__LWORD", FROM_BIG_ENDIAN__LWORD as usize);
        m.insert("FROM_BIG_ENDIAN__REAL", FROM_BIG_ENDIAN__REAL as usize);
        m.insert("FROM_BIG_ENDIAN__TIME_OF_DAY", FROM_BIG_ENDIAN__TIME_OF_DAY as usize);
        m.insert("FROM_BIG_ENDIAN__UDINT", FROM_BIG_ENDIAN__UDINT as usize);
        m.insert("FROM_BIG_ENDIAN__UINT", FROM_BIG_ENDIAN__UINT as usize);
        m.insert("FROM_BIG_ENDIAN__ULINT", FROM_BIG_ENDIAN__ULINT as usize);
        m.insert("FROM_BIG_ENDIAN__WCHAR", FROM_BIG_ENDIAN__WCHAR as usize);
        m.insert("FROM_BIG_ENDIAN__WORD", FROM_BIG_ENDIAN__WORD as usize);
        m.insert("FROM_LITTLE_ENDIAN__DATE", FROM_LITTLE_ENDIAN__DATE as usize);
        m.insert("FROM_LITTLE_ENDIAN__DATE_AND_TIME", FROM_LITTLE_ENDIAN__DATE_AND_TIME as usize);
        m.insert("FROM_LITTLE_ENDIAN__DINT", FROM_LITTLE_ENDIAN__DINT as usize);
        m.insert("FROM_LITTLE_ENDIAN__DWORD", FROM_LITTLE_ENDIAN__DWORD as usize);
        m.insert("FROM_LITTLE_ENDIAN__INT", FROM_LITTLE_ENDIAN__INT as usize);
        m.insert("FROM_LITTLE_ENDIAN__LINT", FROM_LITTLE_ENDIAN__LINT as usize);
        m.insert("FROM_LITTLE_ENDIAN__LREAL", FROM_LITTLE_ENDIAN__LREAL as usize);
        m.insert("FROM_LITTLE_ENDIAN__LWORD", FROM_LITTLE_ENDIAN__LWORD as usize);
        m.insert("FROM_LITTLE_ENDIAN__REAL", FROM_LITTLE_ENDIAN__REAL as usize);
        m.insert("FROM_LITTLE_ENDIAN__TIME_OF_DAY", FROM_LITTLE_ENDIAN__TIME_OF_DAY as usize);
        m.insert("FROM_LITTLE_ENDIAN__UDINT", FROM_LITTLE_ENDIAN__UDINT as usize);
        m.insert("FROM_LITTLE_ENDIAN__UINT", FROM_LITTLE_ENDIAN__UINT as usize);
        m.insert("FROM_LITTLE_ENDIAN__ULINT", FROM_LITTLE_ENDIAN__ULINT as usize);
        m.insert("FROM_LITTLE_ENDIAN__WCHAR", FROM_LITTLE_ENDIAN__WCHAR as usize);
        m.insert("FROM_LITTLE_ENDIAN__WORD", FROM_LITTLE_ENDIAN__WORD as usize);
        m.insert("F_TRIG", F_TRIG as usize);
        m.insert("GE__STRING", GE__STRING as usize);
        m.insert("GE__WSTRING", GE__WSTRING as usize);
        m.insert("GT__STRING", GT__STRING as usize);
        m.insert("GT__WSTRING", GT__WSTRING as usize);
        m.insert("INSERT_EXT__STRING", INSERT_EXT__STRING as usize);
        m.insert("INSERT_EXT__WSTRING", INSERT_EXT__WSTRING as usize);
        m.insert("IS_VALID_BCD__BYTE", IS_VALID_BCD__BYTE as usize);
        m.insert("IS_VALID_BCD__DWORD", IS_VALID_BCD__DWORD as usize);
        m.insert("IS_VALID_BCD__LWORD", IS_VALID_BCD__LWORD as usize);
        m.insert("IS_VALID_BCD__WORD", IS_VALID_BCD__WORD as usize);
        m.insert("IS_VALID__LREAL", IS_VALID__LREAL as usize);
        m.insert("IS_VALID__REAL", IS_VALID__REAL as usize);
        m.insert("LEFT_EXT__STRING", LEFT_EXT__STRING as usize);
        m.insert("LEFT_EXT__WSTRING", LEFT_EXT__WSTRING as usize);
        m.insert("LEN__STRING", LEN__STRING as usize);
        m.insert("LEN__WSTRING", LEN__WSTRING as usize);
        m.insert("LE__STRING", LE__STRING as usize);
        m.insert("LE__WSTRING", LE__WSTRING as usize);
        m.insert("LIMIT__BOOL", LIMIT__BOOL as usize);
        m.insert("LIMIT__BYTE", LIMIT__BYTE as usize);
        m.insert("LIMIT__CHAR", LIMIT__CHAR as usize);
        m.insert("LIMIT__DATE", LIMIT__DATE as usize);
        m.insert("LIMIT__DATE_AND_TIME", LIMIT__DATE_AND_TIME as usize);
        m.insert("LIMIT__DINT", LIMIT__DINT as usize);
        m.insert("LIMIT__DWORD", LIMIT__DWORD as usize);
        m.insert("LIMIT__INT", LIMIT__INT as usize);
        m.insert("LIMIT__LINT", LIMIT__LINT as usize);
        m.insert("LIMIT__LREAL", LIMIT__LREAL as usize);
        m.insert("LIMIT__LWORD", LIMIT__LWORD as usize);
        m.insert("LIMIT__REAL", LIMIT__REAL as usize);
        m.insert("LIMIT__SINT", LIMIT__SINT as usize);
        m.insert("LIMIT__TIME", LIMIT__TIME as usize);
        m.insert("LIMIT__TIME_OF_DAY", LIMIT__TIME_OF_DAY as usize);
        m.insert("LIMIT__UDINT", LIMIT__UDINT as usize);
        m.insert("LIMIT__UINT", LIMIT__UINT as usize);
        m.insert("LIMIT__ULINT", LIMIT__ULINT as usize);
        m.insert("LIMIT__USINT", LIMIT__USINT as usize);
        m.insert("LIMIT__WCHAR", LIMIT__WCHAR as usize);
        m.insert("LIMIT__WORD", LIMIT__WORD as usize);
        m.insert("LINT_TO_STRING_EXT", LINT_TO_STRING_EXT as usize);
        m.insert("LN__LREAL", LN__LREAL as usize);
        m.insert("LN__REAL", LN__REAL as usize);
        m.insert("LOG__LREAL", LOG__LREAL as usize);
        m.insert("LOG__REAL", LOG__REAL as usize);
        m.insert("LREAL_TO_LWORD", LREAL_TO_LWORD as usize);
        m.insert("LREAL_TO_STRING_EXT", LREAL_TO_STRING_EXT as usize);
        m.insert("LT__STRING", LT__STRING as usize);
        m.insert("LT__WSTRING", LT__WSTRING as usize);
        m.insert("LWORD_TO_LREAL", LWORD_TO_LREAL as usize);
        m.insert("LWORD_TO_STRING_EXT", LWORD_TO_STRING_EXT as usize);
        m.insert("MAX__BOOL", MAX__BOOL as usize);
        m.insert("MAX__BYTE", MAX__BYTE as usize);
        m.insert("MAX__CHAR", MAX__CHAR as usize);
        m.insert("MAX__DATE", MAX__DATE as usize);
        m.insert("MAX__DATE_AND_TIME", MAX__DATE_AND_TIME as usize);
        m.insert("MAX__DINT", MAX__DINT as usize);
        m.insert("MAX__DWORD", MAX__DWORD as usize);
        m.insert("MAX__INT", MAX__INT as usize);
        m.insert("MAX__LINT", MAX__LINT as usize);
        m.insert("MAX__LREAL", MAX__LREAL as usize);
        m.insert("MAX__LWORD", MAX__LWORD as usize);
        m.insert("MAX__REAL", MAX__REAL as usize);
        m.insert("MAX__SINT", MAX__SINT as usize);
        m.insert("MAX__TIME", MAX__TIME as usize);
        m.insert("MAX__TIME_OF_DAY", MAX__TIME_OF_DAY as usize);
        m.insert("MAX__UDINT", MAX__UDINT as usize);
        m.insert("MAX__UINT", MAX__UINT as usize);
        m.insert("MAX__ULINT", MAX__ULINT as usize);
        m.insert("MAX__USINT", MAX__USINT as usize);
        m.insert("MAX__WCHAR", MAX__WCHAR as usize);
        m.insert("MAX__WORD", MAX__WORD as usize);
        m.insert("MID_EXT__STRING", MID_EXT__STRING as usize);
        m.insert("MID_EXT__WSTRING", MID_EXT__WSTRING as usize);
        m.insert("MIN__BOOL", MIN__BOOL as usize);
        m.insert("MIN__BYTE", MIN__BYTE as usize);
        m.insert("MIN__CHAR", MIN__CHAR as usize);
        m.insert("MIN__DATE", MIN__DATE as usize);
        m.insert("MIN__DATE_AND_TIME", MIN__DATE_AND_TIME as usize);
        m.insert("MIN__DINT", MIN__DINT as usize);
        m.insert("MIN__DWORD", MIN__DWORD as usize);
        m.insert("MIN__INT", MIN__INT as usize);
        m.insert("MIN__LINT", MIN__LINT as usize);
        m.insert("MIN__LREAL", MIN__LREAL as usize);
        m.insert("MIN__LWORD", MIN__LWORD as usize);
        m.insert("MIN__REAL", MIN__REAL as usize);
        m.insert("MIN__SINT", MIN__SINT as usize);
        m.insert("MIN__TIME", MIN__TIME as usize);
        m.insert("MIN__TIME_OF_DAY", MIN__TIME_OF_DAY as usize);
        m.insert("MIN__UDINT", MIN__UDINT as usize);
        m.insert("MIN__UINT", MIN__UINT as usize);
        m.insert("MIN__ULINT", MIN__ULINT as usize);
        m.insert("MIN__USINT", MIN__USINT as usize);
        m.insert("MIN__WCHAR", MIN__WCHAR as usize);
        m.insert("MIN__WORD", MIN__WORD as usize);
        m.insert("MUL_LTIME__DINT", MUL_LTIME__DINT as usize);
        m.insert("MUL_LTIME__INT", MUL_LTIME__INT as usize);
        m.insert("MUL_LTIME__LINT", MUL_LTIME__LINT as usize);
        m.insert("MUL_LTIME__LREAL", MUL_LTIME__LREAL as usize);
        m.insert("MUL_LTIME__REAL", MUL_LTIME__REAL as usize);
        m.insert("MUL_LTIME__SINT", MUL_LTIME__SINT as usize);
        m.insert("MUL_LTIME__UDINT", MUL_LTIME__UDINT as usize);
        m.insert("MUL_LTIME__UINT", MUL_LTIME__UINT as usize);
        m.insert("MUL_LTIME__ULINT", MUL_LTIME__ULINT as usize);
        m.insert("MUL_LTIME__USINT", MUL_LTIME__USINT as usize);
        m.insert("MUL_TIME__DINT", MUL_TIME__DINT as usize);
        m.insert("MUL_TIME__INT", MUL_TIME__INT as usize);
        m.insert("MUL_TIME__LINT", MUL_TIME__LINT as usize);
        m.insert("MUL_TIME__LREAL", MUL_TIME__LREAL as usize);
        m.insert("MUL_TIME__REAL", MUL_TIME__REAL as usize);
        m.insert("MUL_TIME__SINT", MUL_TIME__SINT as usize);
        m.insert("MUL_TIME__UDINT", MUL_TIME__UDINT as usize);
        m.insert("MUL_TIME__UINT", MUL_TIME__UINT as usize);
        m.insert("MUL_TIME__ULINT", MUL_TIME__ULINT as usize);
        m.insert("MUL_TIME__USINT", MUL_TIME__USINT as usize);
        m.insert("MUL__TIME__DINT", MUL__TIME__DINT as usize);
        m.insert("MUL__TIME__INT", MUL__TIME__INT as usize);
        m.insert("MUL__TIME__LINT", MUL__TIME__LINT as usize);
        m.insert("MUL__TIME__LREAL", MUL__TIME__LREAL as usize);
        m.insert("MUL__TIME__REAL", MUL__TIME__REAL as usize);
        m.insert("MUL__TIME__SINT", MUL__TIME__SINT as usize);
        m.insert("MUL__TIME__UDINT", MUL__TIME__UDINT as usize);
        m.insert("MUL__TIME__UINT", MUL__TIME__UINT as usize);
        m.insert("MUL__TIME__ULINT", MUL__TIME__ULINT as usize);
        m.insert("MUL__TIME__USINT", MUL__TIME__USINT as usize);
        m.insert("NE__STRING", NE__STRING as usize);
        m.insert("NE__WSTRING", NE__WSTRING as usize);
        m.insert("REAL_TO_DWORD", REAL_TO_DWORD as usize);
        m.insert("REAL_TO_STRING_EXT", REAL_TO_STRING_EXT as usize);
        m.insert("REPLACE_EXT__STRING", REPLACE_EXT__STRING as usize);
        m.insert("REPLACE_EXT__WSTRING", REPLACE_EXT__WSTRING as usize);
        m.insert("RIGHT_EXT__STRING", RIGHT_EXT__STRING as usize);
        m.insert("RIGHT_EXT__WSTRING", RIGHT_EXT__WSTRING as usize);
        m.insert("ROL__BYTE", ROL__BYTE as usize);
        m.insert("ROL__DWORD", ROL__DWORD as usize);
        m.insert("ROL__LWORD", ROL__LWORD as usize);
        m.insert("ROL__WORD", ROL__WORD as usize);
        m.insert("ROR__BYTE", ROR__BYTE as usize);
        m.insert("ROR__DWORD", ROR__DWORD as usize);
        m.insert("ROR__LWORD", ROR__LWORD as usize);
        m.insert("ROR__WORD", ROR__WORD as usize);
        m.insert("ROUND__LREAL", ROUND__LREAL as usize);
        m.insert("ROUND__REAL", ROUND__REAL as usize);
        m.insert("RS", RS as usize);
        m.insert("R_TRIG", R_TRIG as usize);
        m.insert("SHL__BYTE", SHL__BYTE as usize);
        m.insert("SHL__DWORD", SHL__DWORD as usize);
        m.insert("SHL__LWORD", SHL__LWORD as usize);
        m.insert("SHL__WORD", SHL__WORD as usize);
        m.insert("SHR__BYTE", SHR__BYTE as usize);
        m.insert("SHR__DWORD", SHR__DWORD as usize);
        m.insert("SHR__LWORD", SHR__LWORD as usize);
        m.insert("SHR__WORD", SHR__WORD as usize);
        m.insert("SIN__LREAL", SIN__LREAL as usize);
        m.insert("SIN__REAL", SIN__REAL as usize);
        m.insert("SPLIT_DATE__DINT", SPLIT_DATE__DINT as usize);
        m.insert("SPLIT_DATE__INT", SPLIT_DATE__INT as usize);
        m.insert("SPLIT_DATE__LINT", SPLIT_DATE__LINT as usize);
        m.insert("SPLIT_DATE__UDINT", SPLIT_DATE__UDINT as usize);
        m.insert("SPLIT_DATE__UINT", SPLIT_DATE__UINT as usize);
        m.insert("SPLIT_DATE__ULINT", SPLIT_DATE__ULINT as usize);
        m.insert("SPLIT_DT__DINT", SPLIT_DT__DINT as usize);
        m.insert("SPLIT_DT__INT", SPLIT_DT__INT as usize);
        m.insert("SPLIT_DT__LINT", SPLIT_DT__LINT as usize);
        m.insert("SPLIT_DT__UDINT", SPLIT_DT__UDINT as usize);
        m.insert("SPLIT_DT__UINT", SPLIT_DT__UINT as usize);
        m.insert("SPLIT_DT__ULINT", SPLIT_DT__ULINT as usize);
        m.insert("SPLIT_TOD__DINT", SPLIT_TOD__DINT as usize);
        m.insert("SPLIT_TOD__INT", SPLIT_TOD__INT as usize);
        m.insert("SPLIT_TOD__LINT", SPLIT_TOD__LINT as usize);
        m.insert("SPLIT_TOD__UDINT", SPLIT_TOD__UDINT as usize);
        m.insert("SPLIT_TOD__UINT", SPLIT_TOD__UINT as usize);
        m.insert("SPLIT_TOD__ULINT", SPLIT_TOD__ULINT as usize);
        m.insert("SQRT__LREAL", SQRT__LREAL as usize);
        m.insert("SQRT__REAL", SQRT__REAL as usize);
        m.insert("SR", SR as usize);
        m.insert("STRING_TO_DINT", STRING_TO_DINT as usize);
        m.insert("STRING_TO_LINT", STRING_TO_LINT as usize);
        m.insert("STRING_TO_LREAL", STRING_TO_LREAL as usize);
        m.insert("STRING_TO_REAL", STRING_TO_REAL as usize);
        m.insert("STRING_TO_WSTRING_EXT", STRING_TO_WSTRING_EXT as usize);
        m.insert("SUB_DATE_DATE", SUB_DATE_DATE as usize);
        m.insert("SUB_DT_DT", SUB_DT_DT as usize);
        m.insert("SUB_DT_TIME", SUB_DT_TIME as usize);
        m.insert("SUB_TIME", SUB_TIME as usize);
        m.insert("SUB_TOD_TIME", SUB_TOD_TIME as usize);
        m.insert("SUB_TOD_TOD", SUB_TOD_TOD as usize);
        m.insert("TAN__LREAL", TAN__LREAL as usize);
        m.insert("TAN__REAL", TAN__REAL as usize);
        m.insert("TIME", TIME as usize);
        m.insert("TIME_TO_STRING_EXT", TIME_TO_STRING_EXT as usize);
        m.insert("TOD_TO_STRING_EXT", TOD_TO_STRING_EXT as usize);
        m.insert("TOF", TOF as usize);
        m.insert("TOF_LTIME", TOF_LTIME as usize);
        m.insert("TOF_TIME", TOF_TIME as usize);
        m.insert("TON", TON as usize);
        m.insert("TON_LTIME", TON_LTIME as usize);
        m.insert("TON_TIME", TON_TIME as usize);
        m.insert("TO_BIG_ENDIAN__DATE", TO_BIG_ENDIAN__DATE as usize);
        m.insert("TO_BIG_ENDIAN__DATE_AND_TIME", TO_BIG_ENDIAN__DATE_AND_TIME as usize);
        m.insert("TO_BIG_ENDIAN__DINT", TO_BIG_ENDIAN__DINT as usize);
        m.insert("TO_BIG_ENDIAN__DWORD", TO_BIG_ENDIAN__DWORD as usize);
        m.insert("TO_BIG_ENDIAN__INT", TO_BIG_ENDIAN__INT as usize);
        m.insert("TO_BIG_ENDIAN__LINT", TO_BIG_ENDIAN__LINT as usize);
        m.insert("TO_BIG_ENDIAN__LREAL", TO_BIG_ENDIAN__LREAL as usize);
        m.insert("TO_BIG_ENDIAN__LWORD", TO_BIG_ENDIAN__LWORD as usize);
        m.insert("TO_BIG_ENDIAN__REAL", TO_BIG_ENDIAN__REAL as usize);
        m.insert("TO_BIG_ENDIAN__TIME_OF_DAY", TO_BIG_ENDIAN__TIME_OF_DAY as usize);
        m.insert("TO_BIG_ENDIAN__UDINT", TO_BIG_ENDIAN__UDINT as usize);
        m.insert("TO_BIG_ENDIAN__UINT", TO_BIG_ENDIAN__UINT as usize);
        m.insert("TO_BIG_ENDIAN__ULINT", TO_BIG_ENDIAN__ULINT as usize);
        m.insert("TO_BIG_ENDIAN__WCHAR", TO_BIG_ENDIAN__WCHAR as usize);
        m.insert("TO_BIG_ENDIAN__WORD", TO_BIG_ENDIAN__WORD as usize);
        m.insert("TO_LITTLE_ENDIAN__DATE", TO_LITTLE_ENDIAN__DATE as usize);
        m.insert("TO_LITTLE_ENDIAN__DATE_AND_TIME", TO_LITTLE_ENDIAN__DATE_AND_TIME as usize);
        m.insert("TO_LITTLE_ENDIAN__DINT", TO_LITTLE_ENDIAN__DINT as usize);
        m.insert("TO_LITTLE_ENDIAN__DWORD", TO_LITTLE_ENDIAN__DWORD as usize);
        m.insert("TO_LITTLE_ENDIAN__INT", TO_LITTLE_ENDIAN__INT as usize);
        m.insert("TO_LITTLE_ENDIAN__LINT", TO_LITTLE_ENDIAN__LINT as usize);
        m.insert("TO_LITTLE_ENDIAN__LREAL", TO_LITTLE_ENDIAN__LREAL as usize);
        m.insert("TO_LITTLE_ENDIAN__LWORD", TO_LITTLE_ENDIAN__LWORD as usize);
        m.insert("TO_LITTLE_ENDIAN__REAL", TO_LITTLE_ENDIAN__REAL as usize);
        m.insert("TO_LITTLE_ENDIAN__TIME_OF_DAY", TO_LITTLE_ENDIAN__TIME_OF_DAY as usize);
        m.insert("TO_LITTLE_ENDIAN__UDINT", TO_LITTLE_ENDIAN__UDINT as usize);
        m.insert("TO_LITTLE_ENDIAN__UINT", TO_LITTLE_ENDIAN__UINT as usize);
        m.insert("TO_LITTLE_ENDIAN__ULINT", TO_LITTLE_ENDIAN__ULINT as usize);
        m.insert("TO_LITTLE_ENDIAN__WCHAR", TO_LITTLE_ENDIAN__WCHAR as usize);
        m.insert("TO_LITTLE_ENDIAN__WORD", TO_LITTLE_ENDIAN__WORD as usize);
        m.insert("TP", TP as usize);
        m.insert("TP_LTIME", TP_LTIME as usize);
        m.insert("TP_TIME", TP_TIME as usize);
        m.insert("WCHAR_TO_CHAR", WCHAR_TO_CHAR as usize);
        m.insert("WSTRING_TO_STRING_EXT", WSTRING_TO_STRING_EXT as usize);
        m.insert("E_LREAL", unsafe { std::ptr::addr_of!(E_LREAL) as usize });
        m.insert("E_REAL", unsafe { std::ptr::addr_of!(E_REAL) as usize });
        m.insert("FRAC_PI_2_LREAL", unsafe { std::ptr::addr_of!(FRAC_PI_2_LREAL) as usize });
        m.insert("FRAC_PI_2_REAL", unsafe { std::ptr::addr_of!(FRAC_PI_2_REAL) as usize });
        m.insert("FRAC_PI_4_LREAL", unsafe { std::ptr::addr_of!(FRAC_PI_4_LREAL) as usize });
        m.insert("FRAC_PI_4_REAL", unsafe { std::ptr::addr_of!(FRAC_PI_4_REAL) as usize });
        m.insert("PI_LREAL", unsafe { std::ptr::addr_of!(PI_LREAL) as usize });
        m.insert("PI_REAL", unsafe { std::ptr::addr_of!(PI_REAL) as usize });
        m
    })
}
/// Symbols the library had, but does not export any more (the driver lists them, they are linked to traps).
fn gone() -> &'static HashSet<String> {
    static GONE: OnceLock<HashSet<String>> = OnceLock::new();
    GONE.get_or_init(|| std::env::var("VERIF_GONE").unwrap_or_default().split_whitespace().map(str::to_string).collect())
}
pub fn is_gone(n: &str) -> bool {
    gone().contains(n)
}
pub fn names() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = all().keys().copied().collect();
    v.sort();
    v
}
pub fn find(n: &str) -> Option<usize> {
    all().get(n).copied().filter(|_| !is_gone(n))
}
pub fn name(n: &str) -> &'static str {
    all().get_key_value(n).map(|x| *x.0).unwrap_or("")
}
