#!/usr/bin/env python3
"""controls.py [DIR]: positive controls of the sanitizer stages. Each change is one whose effects no monitor of results can see; the thorough check must report it
through the named stage."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = os.path.abspath(sys.argv[1] if len(sys.argv) > 1 else "/tmp/controls")
repo, ver = f"{L}/repo", f"{L}/verif"
CONTROLS = [
    ("C30", "tsan", "src/date_time_extra_functions.rs", "    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday()",
     "    static mut CALLS: u64 = 0;\n    unsafe { CALLS = CALLS.wrapping_add(1) };\n    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday()"),
    ("C23", "tsan", "src/flanks.rs", "    let res = trigger.internal.rising_edge(trigger.clk);",
     "    static mut CALLS: u64 = 0;\n    unsafe { CALLS = CALLS.wrapping_add(1) };\n    let res = trigger.internal.rising_edge(trigger.clk);"),
    ("C30", "miri", "src/string_conversion.rs", "    let res: char = input.into();",
     "    let res: char = input.into();\n    let x: u8 = unsafe { std::mem::MaybeUninit::<u8>::uninit().assume_init() };\n    std::hint::black_box(x);"),
    ("C23", "miri", "src/flanks.rs", "    let res = trigger.internal.falling_edge(trigger.clk);",
     "    let x: u8 = unsafe { std::mem::MaybeUninit::<u8>::uninit().assume_init() };\n    std::hint::black_box(x);\n    let res = trigger.internal.falling_edge(trigger.clk);"),
    ("C05", "miri", "src/string_functions.rs", "    EncodedCharsIter::decode(src).count() as i32\n",
     "    let x: u8 = unsafe { std::mem::MaybeUninit::<u8>::uninit().assume_init() };\n    std::hint::black_box(x);\n    EncodedCharsIter::decode(src).count() as i32\n"),
    ("C08", "asan", "src/extra_functions.rs", "    let slice = ptr_to_slice(src);\n    let (string, radix)",
     "    let slice = ptr_to_slice(src);\n    let copy = [b\"-\", slice].concat();\n    std::hint::black_box(unsafe { *copy.as_ptr().add(slice.len() + 1) });\n    let (string, radix)"),
    ("C20", "asan", "src/timers.rs", "        timer.reset();\n        false\n    };\n    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TOF(",
     "        timer.reset();\n        let b = Box::new(timer.input);\n        let p: *const bool = &*b;\n        drop(b);\n        std::hint::black_box(unsafe { p.read() });\n        false\n    };\n    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TOF("),
]
os.makedirs(ver, exist_ok=True)
subprocess.run(f"cd {V} && tar cf - --exclude=.git --exclude='seeded*' --exclude=build . | tar xf - -C {ver}", shell=True, check=True)
for prop, stage, f, old, new in CONTROLS[int(os.environ.get('FROM', 0)):]:
    subprocess.run(f"rm -rf {repo} && cp -a /repo {repo} && rm -rf {repo}/target", shell=True, check=True)
    t = open(f"{repo}/{f}").read()
    assert old in t, (f, old)
    open(f"{repo}/{f}", "w").write(t.replace(old, new, 1))
    p = subprocess.run(["python3", f"{ver}/check.py", prop, "thorough"], env=dict(os.environ, VERIF_REPO=repo, VERIF_ROUNDS="1", VERIF_SCALE="0.05", VERIF_PROFILES="release"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    ev = json.load(open(f"{ver}/evidence/{prop}.json"))
    st = {s["stage"]: s["result"] for s in ev["coverage"]["stages"]}
    print(prop, stage, "REPORTED" if p.returncode == 1 and st.get(stage) == "violation" else f"NOT rc={p.returncode}", st, p.stdout.strip()[-300:].replace("\n", " | "), flush=True)
