S = "src/string_functions.rs"
X = "src/extra_functions.rs"
C = "src/string_conversion.rs"
A = "src/arithmetic_functions.rs"
SEEDS = [
dict(id="c38-replacement", property="C38",
  edits=[(S, '''            let slice = c.unwrap().encode_utf16(&mut temp);''', '''            let c = c.unwrap_or(char::REPLACEMENT_CHARACTER);
            let slice = c.encode_utf16(&mut temp);''')],
  needs="a WSTRING with an unpaired surrogate inside of the selected part",
  breaks="the call delivers another character instead of refusing the text",
  demo='''
extern "C-unwind" { fn LEFT_EXT__WSTRING(a: *const u16, n: i32, d: *mut u16) -> i32; }
fn main() {
    let t = [0x61u16, 0xd83d, 0x62, 0];
    let mut d = [0u16; 8];
    let r = std::panic::catch_unwind(move || unsafe { LEFT_EXT__WSTRING(t.as_ptr(), 2, d.as_mut_ptr()); d });
    assert!(r.is_err(), "{:x?}", r);
}'''),
dict(id="c38-truncated-tail", property="C38",
  edits=[(S, '''        let slice = ptr_to_slice(src);
        Self {
            iter: std::str::from_utf8(slice).unwrap().chars(),
        }''', '''        let slice = ptr_to_slice(src);
        let text = match std::str::from_utf8(slice) {
            Err(e) if e.error_len().is_none() => {
                std::str::from_utf8_unchecked(&slice[..e.valid_up_to()])
            }
            text => text.unwrap(),
        };
        Self { iter: text.chars() }''')],
  needs="a STRING cut inside of its last character",
  breaks="a text cut in the middle of a character is accepted",
  demo='''
extern "C-unwind" { fn LEN__STRING(a: *const u8) -> i32; }
fn main() {
    let r = std::panic::catch_unwind(|| unsafe { LEN__STRING(b"ab\\xe2\\x82\\0".as_ptr()) });
    assert!(r.is_err(), "{:?}", r);
}'''),
dict(id="c38-left-unchecked", property="C38",
  edits=[(S, '''    let mut dest = dest;
    let substr_len = substr_len as usize;
    let nchars = EncodedCharsIter::decode(src).count();
    if nchars < substr_len {
        panic!("Requested substring length exceeds string length.")
    }
    let chars = EncodedCharsIter::decode(src).take(substr_len);
    chars.encode(&mut dest);

    0
}

/// Writes a substring of a specified length from the given string,
/// to the destination buffer, beginning with the first (leftmost) character.
/// Encoding: UTF-16''', '''    let mut dest = dest;
    let substr_len = substr_len as usize;
    let slice = ptr_to_slice(src);
    if slice.len() >= substr_len && slice[..substr_len].is_ascii() {
        slice[..substr_len].iter().map(|b| *b as char).encode(&mut dest);
        return 0;
    }
    let nchars = EncodedCharsIter::decode(src).count();
    if nchars < substr_len {
        panic!("Requested substring length exceeds string length.")
    }
    let chars = EncodedCharsIter::decode(src).take(substr_len);
    chars.encode(&mut dest);

    0
}

/// Writes a substring of a specified length from the given string,
/// to the destination buffer, beginning with the first (leftmost) character.
/// Encoding: UTF-16''')],
  needs="LEFT of a STRING which is not UTF-8 behind the selected ASCII characters",
  breaks="a damaged text is accepted as long as the damage is behind the selected part",
  demo='''
extern "C-unwind" { fn LEFT_EXT__STRING(a: *const u8, n: i32, d: *mut u8) -> i32; }
fn main() {
    let mut d = [0u8; 8];
    let r = std::panic::catch_unwind(move || unsafe { LEFT_EXT__STRING(b"abc\\xff\\0".as_ptr(), 2, d.as_mut_ptr()); d });
    assert!(r.is_err(), "{:?}", r);
}'''),
dict(id="c39-concat-recursion", property="C39",
  edits=[(S, '''        let mut previous = ptr_to_slice(*argv);''', '''        let mut previous = ptr_to_slice(*argv);
        if argc > 2 {
            let two = previous.cmp(ptr_to_slice(*argv.add(1)));
            return predicate_func(two) && compare(argc - 1, argv.add(1), predicate_func);
        }''')],
  needs="a comparison of hundreds of texts",
  breaks="the comparison calls itself once per operand",
  demo='''
extern "C-unwind" { fn LE__STRING(n: i32, v: *const *const u8) -> bool; }
fn main() {
    // as in a task with a stack of 128 KiB; a crash ends the demonstration with a signal
    std::thread::Builder::new().stack_size(128 << 10).spawn(|| {
        let t = s8("abc");
        let v = vec![t.as_ptr(); 60_000];
        assert!(unsafe { LE__STRING(v.len() as i32, v.as_ptr()) });
    }).unwrap().join().unwrap();
}'''),
dict(id="c39-wide-buffer", property="C39",
  edits=[(C, '''    let mut res_arr = [u8::MAX; 80];
''', '''    let mut res_arr = [u8::MAX; 1 << 17];
''')],
  needs="a task with a small stack",
  breaks="the conversion of one character takes 128 KiB of stack",
  demo='''
extern "C-unwind" { fn WCHAR_TO_CHAR(a: u16) -> u8; }
fn main() {
    std::thread::Builder::new().stack_size(64 << 10).spawn(|| {
        assert_eq!(unsafe { WCHAR_TO_CHAR(0x41) }, 0x41);
    }).unwrap().join().unwrap();
}'''),
]
