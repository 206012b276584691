F = "src/string_functions.rs"
C = "src/string_conversion.rs"
SEEDS = [
dict(id="c01-replace-empty", property="C01",
  edits=[(F, "            EncodedCharsIter::decode(src_replacement)\n                .chain(EncodedCharsIter::decode(src_base).skip(pos + nreplace)),\n", "            EncodedCharsIter::decode(src_replacement)\n                .chain(EncodedCharsIter::decode(src_base).skip(pos + nreplace.max(1))),\n", 1)],
  needs="REPLACE of no character (length 0) in a WSTRING",
  breaks="REPLACE_EXT__WSTRING with length 0 drops the character at the position instead of inserting only",
  demo='''
extern "C-unwind" { fn REPLACE_EXT__WSTRING(a: *const u16, b: *const u16, n: i32, p: i32, d: *mut u16) -> i32; }
fn main() {
    let (a, b) = (s16("abc"), s16("x"));
    let mut d = [0x55_u16; 16];
    unsafe { REPLACE_EXT__WSTRING(a.as_ptr(), b.as_ptr(), 0, 2, d.as_mut_ptr()); }
    assert_eq!(t16(&d), "axbc");
}'''),
dict(id="c01-concat-empty-middle", property="C01",
  edits=[(F, "    for _ in 0..argc {\n        EncodedCharsIter::decode(*argv).encode(&mut dest);\n        argv = argv.add(1);\n    }\n",
          "    for _ in 0..argc {\n        let text = ptr_to_slice(*argv);\n        if text.is_empty() {\n            *dest = 0;\n            break;\n        }\n        EncodedCharsIter::decode(*argv).encode(&mut dest);\n        argv = argv.add(1);\n    }\n", 0)],
  needs="CONCAT of three or more STRINGs with an empty one in front of a non-empty one",
  breaks="an empty text ends CONCAT, the texts behind it are lost",
  demo='''
extern "C-unwind" { fn CONCAT_EXT__STRING(d: *mut u8, n: i32, a: *const *const u8) -> i32; }
fn main() {
    let (a, b, c) = (s8("ab"), s8(""), s8("cd"));
    let v = [a.as_ptr(), b.as_ptr(), c.as_ptr()];
    let mut d = [0_u8; 16];
    unsafe { CONCAT_EXT__STRING(d.as_mut_ptr(), 3, v.as_ptr()); }
    assert_eq!(t8(&d), "abcd");
}'''),
dict(id="c01-mid-stale-tail", property="C01",
  edits=[(F, "    let chars = EncodedCharsIter::decode(src)\n        .skip(start_index)\n        .take(substr_len);\n    chars.encode(&mut dest);\n\n    0\n",
          "    if substr_len > 0 {\n        let chars = EncodedCharsIter::decode(src)\n            .skip(start_index)\n            .take(substr_len);\n        chars.encode(&mut dest);\n    }\n\n    0\n", 1)],
  needs="MID on a WSTRING with length 0 while the destination still holds a previous text",
  breaks="the terminator of an empty result is not written, the previous text of the destination remains",
  demo='''
extern "C-unwind" { fn MID_EXT__WSTRING(a: *const u16, n: i32, p: i32, d: *mut u16) -> i32; }
fn main() {
    let a = s16("abc");
    let mut d = s16("previous");
    unsafe { MID_EXT__WSTRING(a.as_ptr(), 0, 2, d.as_mut_ptr()); }
    assert_eq!(t16(&d), "");
}'''),
dict(id="c02-mid-i32-sum", property="C02",
  edits=[(F, "    if nchars < substr_len + start_index {\n", "    if (nchars as i32) < (substr_len as i32).wrapping_add(start_index as i32) {\n", 0)],
  needs="MID on a STRING with a length near 2147483647 and a position of at least 2, so that the 32 bit sum wraps around",
  breaks="the wrapped sum passes the check, the rest of the text is delivered instead of a refusal",
  demo='''
extern "C-unwind" { fn MID_EXT__STRING(a: *const u8, n: i32, p: i32, d: *mut u8) -> i32; }
fn main() {
    quiet();
    let a = s8("abcdef");
    let mut d = [0_u8; 64];
    let r = catch_unwind(move || unsafe { MID_EXT__STRING(a.as_ptr(), i32::MAX, 3, d.as_mut_ptr()) });
    assert!(r.is_err());
}'''),
dict(id="c02-insert-byte-bound", property="C02",
  edits=[(F, "    let nchars = EncodedCharsIter::decode(src_base).count();\n    if pos < 0 || pos > nchars as i32 {\n", "    let nchars = ptr_to_slice(src_base).len();\n    if pos < 0 || pos > nchars as i32 {\n", 0)],
  needs="INSERT at a position beyond the number of characters, but not beyond the number of bytes of a STRING with multi byte characters",
  breaks="the position is compared with the number of bytes, the text is appended instead of a refusal",
  demo='''
extern "C-unwind" { fn INSERT_EXT__STRING(a: *const u8, b: *const u8, p: i32, d: *mut u8) -> i32; }
fn main() {
    quiet();
    let (a, b) = (s8("\\u{e4}\\u{f6}"), s8("x"));
    let mut d = [0_u8; 64];
    let r = catch_unwind(move || unsafe { INSERT_EXT__STRING(a.as_ptr(), b.as_ptr(), 3, d.as_mut_ptr()) });
    assert!(r.is_err());
}'''),
dict(id="c02-delete-saturate", property="C02",
  edits=[(F, "    let ndel = num_chars_to_delete as usize;\n    if ndel + pos > nchars {\n", "    let ndel = num_chars_to_delete as u16 as usize;\n    if ndel + pos > nchars {\n", 1)],
  needs="DELETE on a WSTRING with a length which is a small number modulo 65536",
  breaks="the length is truncated to 16 bits in front of the check: a few characters are deleted instead of a refusal",
  demo='''
extern "C-unwind" { fn DELETE_EXT__WSTRING(a: *const u16, n: i32, p: i32, d: *mut u16) -> i32; }
fn main() {
    quiet();
    let a = s16("abcdef");
    let mut d = [0_u16; 64];
    let r = catch_unwind(move || unsafe { DELETE_EXT__WSTRING(a.as_ptr(), 65537, 2, d.as_mut_ptr()) });
    assert!(r.is_err());
}'''),
dict(id="c03-find-no-backup", property="C03",
  edits=[(F, "    if let Some(idx) = haystack\n        .windows(needle.len())\n        .position(|window| window == needle)\n    {\n        // get chars until byte index\n",
          "    let mut matched = 0;\n    let mut found = None;\n    for (i, unit) in haystack.iter().enumerate() {\n        if *unit == needle[matched] {\n            matched += 1;\n        } else {\n            matched = usize::from(*unit == needle[0]);\n        }\n        if matched == needle.len() {\n            found = Some(i + 1 - matched);\n            break;\n        }\n    }\n    if let Some(idx) = found {\n        // get chars until byte index\n")],
  needs="a text to be found whose own prefix repeats inside of it (aab in aaab)",
  breaks="the linear scan does not back up after a partial match and misses occurrences overlapping it",
  demo='''
extern "C-unwind" { fn FIND__STRING(a: *const u8, b: *const u8) -> i32; }
fn main() {
    let (a, b) = (s8("aaab"), s8("aab"));
    assert_eq!(unsafe { FIND__STRING(a.as_ptr(), b.as_ptr()) }, 2);
}'''),
dict(id="c03-find-wstring-unit-index", property="C03",
  edits=[(F, "        // match found. count utf16 chars to window position\n        let char_index =\n            decode_utf16(std::slice::from_raw_parts(src1, idx).iter().copied()).count();\n", "        // match found. count utf16 chars to window position\n        let high = haystack[..idx].iter().filter(|it| (0xD800..0xDB80).contains(*it)).count();\n        let char_index = idx - high;\n")],
  needs="FIND in a WSTRING with a character of a private use plane (15 or 16) in front of the occurrence",
  breaks="private use surrogate pairs are counted as two characters",
  demo='''
extern "C-unwind" { fn FIND__WSTRING(a: *const u16, b: *const u16) -> i32; }
fn main() {
    let (a, b) = (s16("\\u{F0000}abc"), s16("b"));
    assert_eq!(unsafe { FIND__WSTRING(a.as_ptr(), b.as_ptr()) }, 3);
}'''),
dict(id="c04-compare-first", property="C04",
  edits=[(F, "            previous = current;\n        }\n", "            if current.len() > previous.len() {\n                previous = current;\n            }\n        }\n")],
  needs="a comparison of three or more texts where a shorter text follows and the pair behind it decides",
  breaks="neighbours are not compared: a shorter text is skipped as left operand of the next comparison",
  demo='''
extern "C-unwind" { fn GT__STRING(n: i32, a: *const *const u8) -> bool; }
fn main() {
    let (a, b, c) = (s8("cc"), s8("a"), s8("b"));
    let v = [a.as_ptr(), b.as_ptr(), c.as_ptr()];
    assert!(!unsafe { GT__STRING(3, v.as_ptr()) });
}'''),
dict(id="c04-compare-length-first", property="C04",
  edits=[(F, "    ptr_to_slice(string1).cmp(ptr_to_slice(string2)).is_ne()\n", "    let (a, b) = (ptr_to_slice(string1), ptr_to_slice(string2));\n    a.iter().zip(b).any(|(a, b)| a != b)\n", 1)],
  needs="NE of two WSTRINGs where one is a proper prefix of the other",
  breaks="a text and its proper prefix are taken for equal",
  demo='''
extern "C-unwind" { fn NE__WSTRING(a: *const u16, b: *const u16) -> bool; }
fn main() {
    let (a, b) = (s16("abc"), s16("abcd"));
    assert!(unsafe { NE__WSTRING(a.as_ptr(), b.as_ptr()) });
}'''),
dict(id="c05-len-pairs", property="C05",
  edits=[(F, "    (0..).take_while(|&i| !(*src.add(i)).is_zero()).count()\n",
          "    // two units per step\n    let mut len = 0;\n    loop {\n        let (first, second) = (*src.add(len), std::ptr::read_volatile(src.add(len + 1)));\n        if first.is_zero() {\n            return len;\n        }\n        if second.is_zero() {\n            return len + 1;\n        }\n        len += 2;\n    }\n")],
  needs="a text of an even number of units whose terminator is the last unit of its memory page",
  breaks="the length scan reads one unit behind the terminator",
  demo='''
extern "C-unwind" { fn LEN__STRING(a: *const u8) -> i32; }
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        // a page, followed by one which cannot be read
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(m.add(4096), 4096, 0), 0);
        for n in 0..9 {
            let p = m.add(4095 - n);
            for i in 0..n {
                *p.add(i) = b'x';
            }
            *p.add(n) = 0;
            assert_eq!(LEN__STRING(p), n as i32);
        }
    }
}'''),
dict(id="c05-encode-four", property="C05",
  edits=[(F, "            for byte in slice.as_bytes() {\n                **dest = *byte;\n                *dest = dest.add(1);\n            }\n",
          "            let len = slice.len();\n            // the bytes of the character are copied at once\n            std::ptr::copy_nonoverlapping(temp.as_ptr(), *dest, temp.len());\n            *dest = dest.add(len);\n")],
  needs="a destination which ends with the terminator of the result (result of the maximum length of the variable)",
  breaks="four bytes are written per character: up to two bytes behind the terminator are overwritten",
  demo='''
extern "C-unwind" { fn LEFT_EXT__STRING(a: *const u8, n: i32, d: *mut u8) -> i32; }
fn main() {
    let a = s8("abcdef");
    let mut d = [0xAA_u8; 8];
    unsafe { LEFT_EXT__STRING(a.as_ptr(), 3, d.as_mut_ptr()); }
    assert_eq!(d, [b'a', b'b', b'c', 0, 0xAA, 0xAA, 0xAA, 0xAA]);
}'''),
dict(id="c06-drop-unpaired", property="C06",
  edits=[(C, "        .map(|c| c.unwrap_or(char::REPLACEMENT_CHARACTER))\n        .encode(&mut dest);\n", "        .filter_map(|c| c.ok())\n        .encode(&mut dest);\n")],
  needs="a WSTRING with an unpaired surrogate",
  breaks="the unpaired surrogate vanishes instead of becoming the replacement character",
  demo='''
extern "C-unwind" { fn WSTRING_TO_STRING_EXT(a: *const u16, d: *mut u8) -> i32; }
fn main() {
    let a = [0x61, 0xDC00, 0x62, 0_u16];
    let mut d = [0_u8; 32];
    unsafe { WSTRING_TO_STRING_EXT(a.as_ptr(), d.as_mut_ptr()); }
    assert_eq!(t8(&d), "a\\u{fffd}b");
}'''),
dict(id="c06-bmp-only", property="C06",
  edits=[(C, "        for word in slice {\n            *dest = *word;\n            dest = dest.add(1);\n        }\n", "        *dest = slice[0];\n        dest = dest.add(1);\n        if char as u32 > 0x1FFFF {\n            *dest = slice[1];\n            dest = dest.add(1);\n        }\n")],
  needs="a STRING with a character of plane 1 (four bytes)",
  breaks="the second half of the surrogate pair is missing for characters of plane 1",
  demo='''
extern "C-unwind" { fn STRING_TO_WSTRING_EXT(a: *const u8, d: *mut u16) -> i32; }
fn main() {
    let a = s8("a\\u{1F600}b");
    let mut d = [0_u16; 32];
    unsafe { STRING_TO_WSTRING_EXT(a.as_ptr(), d.as_mut_ptr()); }
    assert_eq!(t16(&d), "a\\u{1F600}b");
}'''),
]
