S = "src/string_functions.rs"
A = "src/arithmetic_functions.rs"
SEEDS = [
dict(id="c40-right-nth", property="C40",
  edits=[(S, '''    let chars = EncodedCharsIter::decode(src).skip(nchars - substr_len);
    chars.encode(&mut dest);
''', '''    let text = std::str::from_utf8(ptr_to_slice(src)).unwrap();
    (nchars - substr_len..nchars)
        .filter_map(|i| text.chars().nth(i))
        .encode(&mut dest);
''', 0)],
  needs="a long text",
  breaks="each character is searched from the start: the time grows with the square of the length",
  demo='''
extern "C" { fn RIGHT_EXT__STRING(a: *const u8, n: i32, d: *mut u8) -> i32; }
fn main() {
    let t = |n: usize| {
        let s = s8(&"a".repeat(n));
        let mut d = vec![0u8; n + 1];
        (0..3).map(|_| { let t = std::time::Instant::now(); unsafe { RIGHT_EXT__STRING(s.as_ptr(), n as i32 - 1, d.as_mut_ptr()) }; t.elapsed().as_secs_f64() }).fold(1e9, f64::min)
    };
    assert!(t(20_000) < 0.5);
}'''),
dict(id="c40-compare-all-pairs", property="C40",
  edits=[(S, '''        for _ in 0..argc - 1 {
            argv = argv.add(1);
            let current = ptr_to_slice(*argv);
            if !(predicate_func(previous.cmp(current))) {
                return false;
            }
            previous = current;
        }''', '''        let first = argv;
        for i in 0..argc - 1 {
            argv = argv.add(1);
            let current = ptr_to_slice(*argv);
            // the relation has to hold between all of them
            for k in 0..=i {
                previous = ptr_to_slice(*first.add(k as usize));
                if !(predicate_func(previous.cmp(current))) {
                    return false;
                }
            }
        }''')],
  needs="thousands of operands in order",
  breaks="all pairs of operands are compared",
  demo='''
extern "C" { fn LE__STRING(n: i32, a: *const *const u8) -> bool; }
fn main() {
    let s: Vec<Vec<u8>> = (0..10_000).map(|k| s8(&format!("{k:08}"))).collect();
    let p: Vec<*const u8> = s.iter().map(|x| x.as_ptr()).collect();
    let t = std::time::Instant::now();
    assert!(unsafe { LE__STRING(p.len() as i32, p.as_ptr()) });
    assert!(t.elapsed().as_secs_f64() < 0.4);
}'''),
dict(id="c40-concat-from-start", property="C40",
  edits=[(S, '''    let mut dest = dest;
    let mut argv = argv;
''', '''    let start = dest;
    let mut dest = dest;
    let mut argv = argv;
    *dest = 0;
''', 0), (S, '''        EncodedCharsIter::decode(*argv).encode(&mut dest);
''', '''        // append to what is there
        dest = start.add(get_null_terminated_len(start));
        EncodedCharsIter::decode(*argv).encode(&mut dest);
''', 0)],
  needs="thousands of operands",
  breaks="the end of the result is searched anew for each operand",
  demo='''
extern "C" { fn CONCAT_EXT__STRING(d: *mut u8, n: i32, a: *const *const u8) -> i32; }
fn main() {
    let s = s8("0123456789");
    let p = vec![s.as_ptr(); 20_000];
    let mut d = vec![1u8; 200_001];
    let t = std::time::Instant::now();
    assert_eq!(unsafe { CONCAT_EXT__STRING(d.as_mut_ptr(), p.len() as i32, p.as_ptr()) }, 0);
    assert!(t.elapsed().as_secs_f64() < 1.0);
}'''),
dict(id="c40-expt-steps", property="C40",
  edits=[(A, '''pub extern "C" fn EXPT__LREAL__DINT(in1: f64, in2: i32) -> f64 {
    in1.powi(in2)''', '''pub extern "C" fn EXPT__LREAL__DINT(in1: f64, in2: i32) -> f64 {
    // large exponents in steps, which keep the signs
    let mut left = in2.unsigned_abs();
    let mut res = 1.0_f64;
    while left > 30 {
        res *= in1.powi(30);
        left -= 30;
    }
    res *= in1.powi(left as i32);
    if in2 < 0 {
        return 1.0 / res;
    }
    res''')],
  needs="a large exponent",
  breaks="the time is proportional to the exponent",
  demo='''
extern "C" { fn EXPT__LREAL__DINT(a: f64, b: i32) -> f64; }
fn main() {
    let t = std::time::Instant::now();
    assert_eq!(unsafe { EXPT__LREAL__DINT(-1.0, 2_000_000_001) }, -1.0);
    assert!(t.elapsed().as_secs_f64() < 0.1);
}'''),
dict(id="c40-ton-sleeps", property="C40",
  edits=[("src/timers.rs", '''            let in_preset_range = timer.is_in_preset_range();
            timer.update_elapsed_time();
            !in_preset_range
            //Timer stopped, but''', '''            let mut in_preset_range = timer.is_in_preset_range();
            let left = timer.get_run_time().map_or(0, |it| timer.preset_time - it.as_nanos() as i64);
            if in_preset_range && left > 0 && left < 1_000_000 {
                // due before the next scan: be exact
                std::thread::sleep(Duration::from_nanos(left as u64));
                in_preset_range = timer.is_in_preset_range();
            }
            timer.update_elapsed_time();
            !in_preset_range
            //Timer stopped, but''')],
  needs="a scan in the last millisecond before the preset time",
  breaks="the scan waits for the preset time",
  demo='''
#[repr(align(8))]
struct M([u8; 256]);
extern "C" { fn TON(t: *mut u8); }
fn main() {
    // IN at 0, PT at 8
    let mut slow = 0;
    for _ in 0..20 {
        let mut m = M([0; 256]);
        let p = m.0.as_mut_ptr();
        unsafe {
            *(p.add(8) as *mut i64) = 950_000;
            *p = 1;
            TON(p);
            let t = std::time::Instant::now();
            TON(p);
            slow += (t.elapsed().as_micros() > 500) as i32;
        }
    }
    assert!(slow < 10, "{slow}");
}'''),
dict(id="c40-zeros", property="C40",
  edits=[("src/extra_functions.rs", '''    match string {
        Ok(s) => match T::from_str_radix(s, radix) {''', '''    let string = string.map(|s| {
        let mut s = s.to_string();
        while s.starts_with("00") {
            s.remove(0);
        }
        s
    });
    match string.as_deref() {
        Ok(s) => match T::from_str_radix(s, radix) {''')],
  needs="a numeral with many thousand zeros",
  breaks="the text is moved once for each zero",
  demo='''
extern "C" { fn STRING_TO_LINT(a: *const u8) -> i64; }
fn main() {
    let s = s8(&("0".repeat(400_000) + "7"));
    let t = std::time::Instant::now();
    assert_eq!(unsafe { STRING_TO_LINT(s.as_ptr()) }, 7);
    assert!(t.elapsed().as_secs_f64() < 1.0);
}'''),
dict(id="c40-one-at-a-time", property="C40",
  edits=[(S, '''    EncodedCharsIter::decode(src)
        .take(pos)
        .chain(EncodedCharsIter::decode(src).skip(ndel + pos))
        .encode(&mut dest);
''', '''    // source and destination may be shared between tasks
    static GUARD: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _guard = GUARD.lock();
    EncodedCharsIter::decode(src)
        .take(pos)
        .chain(EncodedCharsIter::decode(src).skip(ndel + pos))
        .encode(&mut dest);
''', 0)],
  needs="a second thread which calls DELETE while another one is in a long call",
  breaks="a task waits for a call in another task",
  demo='''
extern "C" {
    fn DELETE_EXT__STRING(a: *const u8, n: i32, p: i32, d: *mut u8) -> i32;
    fn getrusage(who: i32, u: *mut [i64; 18]) -> i32;
}
/// how often this thread gave up the processor on its own account
fn waited() -> i64 {
    let mut u = [0; 18];
    unsafe { getrusage(1, &mut u) };
    u[16]
}
fn main() {
    let long = s8(&"a".repeat(100_000));
    std::thread::spawn(move || {
        let mut d = vec![0u8; 100_001];
        loop {
            unsafe { DELETE_EXT__STRING(long.as_ptr(), 1, 1, d.as_mut_ptr()) };
        }
    });
    let s = s8("abc");
    let mut d = [0u8; 8];
    let (mut short, mut late) = (0u64, 0u64);
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < 6 {
        let w = waited();
        unsafe { DELETE_EXT__STRING(s.as_ptr(), 1, 1, d.as_mut_ptr()) };
        late += (waited() != w) as u64;
        short += 1;
    }
    assert!(late < 20, "{late} of {short} calls waited");
}'''),
dict(id="c40-max-rescan", property="C40",
  edits=[("src/types.rs", '''                *arr.iter().max().expect("A max will always exist")''', '''                *arr.iter()
                    .find(|it| arr.iter().all(|other| other <= it))
                    .expect("A max will always exist")''')],
  needs="many thousand operands in ascending order",
  breaks="the operands are compared with each other",
  demo='''
extern "C" { fn MAX__LINT(n: u32, a: *const i64) -> i64; }
fn main() {
    let v: Vec<i64> = (0..100_000).collect();
    let t = std::time::Instant::now();
    assert_eq!(unsafe { MAX__LINT(v.len() as u32, v.as_ptr()) }, 99_999);
    assert!(t.elapsed().as_secs_f64() < 0.7);
}'''),
]
