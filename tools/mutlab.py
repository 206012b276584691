#!/usr/bin/env python3
"""Mutation of the library's sources: mutlab.py N LANES SEED [file regex]

Takes N small changes at random, keeps those which compile and pass the tests, and runs the checks the
changed file is the concern of against a copy with the change. Results: $MUT/results.jsonl.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get("MUT", "/tmp/mut")
REPO = "/repo"
CHECKS = {
    "arithmetic_functions": "C28 C29 C32", "numerical_functions": "C28 C32", "bistable_functionblocks": "C22", "flanks": "C22", "counters": "C18 C23",
    "timers": "C19 C20 C21 C17 C23", "bit_num_conversion": "C26 C31", "bit_shift_functions": "C24", "endianness_conversion_functions": "C25", "date_time_conversion": "C16 C33",
    "date_time_extra_functions": "C14 C15 C33", "date_time_numeric_functions": "C11 C12 C13 C33", "string_conversion": "C06 C05", "types": "C27", "validation_functions": "C26",
    "string_functions": "C01 C02 C03 C04 C05", "extra_functions": "C07 C08 C09 C10 C05 C17", "utils": "C10 C16 C14 C15 C11 C33 C22", "lib": "C35", "timers/traits": "C19 C20 C21 C23",
}
SWAPS = [
    ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), ("checked_mul", "checked_add"), ("checked_div", "checked_rem"), ("checked_div", "checked_mul"),
    ("saturating_add", "wrapping_add"), ("saturating_sub", "wrapping_sub"), ("rotate_left", "rotate_right"), ("rotate_right", "rotate_left"),
    ("checked_shl", "checked_shr"), ("checked_shr", "checked_shl"), ("is_gt", "is_ge"), ("is_ge", "is_gt"), ("is_lt", "is_le"), ("is_le", "is_lt"), ("is_eq", "is_ne"), ("is_ne", "is_eq"),
    ("is_some", "is_none"), ("is_none", "is_some"), ("take", "skip"), ("skip", "take"), ("min", "max"), ("max", "min"), ("to_be_bytes", "to_le_bytes"), ("to_le_bytes", "to_be_bytes"),
    ("from_be_bytes", "from_le_bytes"), ("from_le_bytes", "from_be_bytes"), ("to_be", "to_le"), ("to_le", "to_be"), ("from_be", "from_le"), ("trunc", "round"), ("round", "trunc"), ("floor", "trunc"), ("sin", "cos"),
    ("cos", "sin"), ("tan", "atan"), ("asin", "acos"), ("ln", "log10"), ("exp", "exp2"), ("sqrt", "cbrt"), ("powi", "powf"), ("hour", "minute"), ("minute", "second"), ("second", "minute"),
    ("month", "day"), ("day", "month"), ("day", "ordinal"), ("year", "month"), ("nanosecond", "second"), ("true", "false"), ("false", "true"), ("trim", "trim_start"), ("chars", "bytes"), ("any", "all"), ("all", "any"),
    ("position", "rposition"), ("starts_with", "ends_with"), ("find", "rfind"), ("Some", "None;//"), ("TRUE", "FALSE"),
    ("i64", "i32"), ("u64", "u32"), ("u32", "u16"), ("i32", "i16"), ("f64", "f32"), ("usize", "u8"), ("u16", "u8"), ("u64", "i64"), ("i64", "u64"), ("u32", "i32"), ("u8", "i8"), ("i16", "u16"), ("i32", "u32"),
    ("num_days", "num_weeks"), ("num_seconds", "num_minutes"), ("num_milliseconds", "num_microseconds"), ("wrapping_add", "saturating_add"), ("from_utf8", "from_utf8_unchecked"), ("next", "last"),
    ("is_null", "is_aligned"), ("count", "sum"), ("Ok", "Err"), ("rev", "skip(0).into_iter"), ("num_seconds_from_midnight", "second"), ("timestamp_nanos", "timestamp"), ("and_utc", "and_local"),
]
BIN = [("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("<", ">"), (">", "<"), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" % ", " / "), ("&&", "||"), ("||", "&&"),
       ("<<", ">>"), (">>", "<<"), (" | ", " & "), (" & ", " | "), ("+=", "-="), ("-=", "+="), ("+=", "="), ("..=", ".."), ("..", "..="), (" ^ ", " | ")]


def code_of(text):
    """the part in front of the unit tests"""
    k = text.find("#[cfg(test)]\nmod")
    return text if k < 0 else text[:k]


def mutants(f):
    text = open(f"{REPO}/{f}").read()
    code = code_of(text)
    if f.endswith("utils.rs"):
        code = text
    out = []
    pos = 0
    for n, line in enumerate(code.splitlines(True), 1):
        s = line.strip()
        body = line.split("//")[0]
        if s and not s.startswith(("//", "#", "use ", "extern", "mod ", "pub mod")):
            def put(a, b, new, what):
                out.append({"file": f, "line": n, "a": pos + a, "b": pos + b, "new": new, "what": what, "text": s[:120]})
            for old, new in BIN:
                for m in re.finditer(re.escape(old), body):
                    a, b = m.span()
                    pre, post = body[max(0, a - 1):a], body[b:b + 1]
                    o = old.strip()
                    if o in "<>" and (pre in "<>=-:" or post in "<>=" or pre != " " or post != " "):
                        continue
                    if o in ("<=", ">=", "==", "!=") and (pre in "<>=" or post in "<>="):
                        continue
                    if o in ("<<", ">>") and (pre != " " or post != " "):
                        continue
                    if o == ".." and (pre == "." or post in "=."):
                        continue
                    put(a, b, new, f"{o} -> {new.strip()}")
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\d_]*\.\d)(?=\b|_?[iuf])", body):
                d = m.group(1).replace("_", "")
                if not d.isdigit() or body[m.start() - 1:m.start()].isalpha():
                    continue
                v = int(d)
                for w in {v + 1, max(v - 1, 0), v * 10 if v > 9 else v + 1} - {v}:
                    put(m.start(1), m.end(1), str(w), f"{v} -> {w}")
            for old, new in SWAPS:
                for m in re.finditer(rf"\b{old}\b", body):
                    put(*m.span(), new, f"{old} -> {new}")
            for m in re.finditer(r"(?<=[\s(])!(?=[\w(*])", body):
                put(*m.span(), "", "! removed")
            for m in re.finditer(r"\bif (?!let\b)([^{}]+) \{", body):
                put(*m.span(1), "true", "condition -> true")
                put(*m.span(1), "false", "condition -> false")
                put(*m.span(1), f"!({m.group(1)})", "condition negated")
            if s.endswith(";") and not s.startswith(("let ", "return", "use ", "}", "type ", "const ", "static ", "pub ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith((".", ")")):
                a = len(body) - len(body.lstrip())
                put(a, len(body.rstrip()), "", "statement removed")
            for m in re.finditer(r"\b(\w+)\(([\w*&. ]+), ([\w*&. ]+)\)", body):
                put(m.start(2), m.end(3), f"{m.group(3)}, {m.group(2)}", "arguments swapped")
            for m in re.finditer(r"\.(abs|abs_sub|trunc|round|rev|copied|unwrap|trim|trim_end|saturating_sub|take|skip|wrapping_neg|min|max|filter|flatten)\((?:[^()]*)\)", body):
                put(*m.span(), "", f".{m.group(1)}() removed")
            for m in re.finditer(r" as (\w+)\b", body):
                for t in ("i8", "u16", "i32", "u32", "f32", "u8"):
                    put(m.start(), m.start(), f" as {t}", f"as {t} in between")
            for m in re.finditer(r"\bself\.(\w+)\b", body):
                for other in ("preset", "output", "load", "reset", "input", "current_value", "start_time", "elapsed", "q", "clk", "internal"):
                    if other != m.group(1) and re.search(rf"\b{other}\b", code):
                        put(m.start(1), m.end(1), other, f"self.{m.group(1)} -> self.{other}")
        pos += len(line)
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, shell=isinstance(cmd, str), start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        sh("pkill -9 -f " + MUT + "/none")
        return 124, ""


def lane(i, queue, out, lock):
    L = f"{MUT}/{i}"
    repo, ver = f"{L}/repo", f"{L}/verif"
    sh(f"mkdir -p {L}/test {ver}; rm -rf {repo}; cp -a {REPO} {repo}; rm -rf {repo}/target; cd {V} && tar cf - --exclude=.git --exclude='seeded*' --exclude=build . | tar xf - -C {ver}")
    der = open("/opt/vp/rustlib/derive.py").read().replace('REPO = "/repo"', f'REPO = "{repo}"').replace('OUT = "/opt/vp/rustlib/Cargo.toml"', f'OUT = "{L}/test/Cargo.toml"')
    open(f"{L}/derive.py", "w").write(der)
    shutil.copy("/opt/vp/rustlib/Cargo.lock", f"{L}/test/Cargo.lock")
    env = dict(os.environ, PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", RUSTUP_TOOLCHAIN="1.80.1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{L}/test/target", CARGO_INCREMENTAL="1")
    sh(["python3", f"{L}/derive.py"])
    while True:
        with lock:
            if not queue:
                return
            m = queue.pop()
        path = f"{repo}/{m['file']}"
        orig = open(f"{REPO}/{m['file']}").read()
        open(path, "w").write(orig[:m["a"]] + m["new"] + orig[m["b"]:])
        t = time.time()
        rc, o = sh(["cargo", "build", "--manifest-path", f"{L}/test/Cargo.toml", "--offline"], env=env, cwd=repo)
        if rc:
            r = "no build"
        else:
            rc, o = sh(["timeout", "-k", "1", "120", "cargo", "test", "--manifest-path", f"{L}/test/Cargo.toml", "--offline", "--", "--test-threads", "4"], env=env, cwd=repo)
            if rc:
                r = "tests fail"
            else:
                r = "MISSED"
                m["checks"] = {}
                key = m["file"][4:-3]
                props = CHECKS.get(key) or CHECKS.get(key.split("/")[0])
                look = dict(os.environ, VERIF_REPO=repo, VERIF_SCALE="0.1", VERIF_PROFILES="debug")
                for p in props.split():
                    rc, o = sh(["python3", f"{ver}/check.py", p, "quick"], env=look, timeout=1200)
                    if rc == 1 and f"VIOLATION property={p} " in o:
                        m["checks"][p] = rc
                        r = "caught"
                        break
                for p in props.split() if r == "MISSED" else []:
                    rc, o = sh(["python3", f"{ver}/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=repo), timeout=1200)
                    m["checks"][p] = rc
                    if rc == 1 and f"VIOLATION property={p} " in o:
                        r = "caught"
                        break
                    if rc != 0:
                        m["odd"] = o[-800:]
        m["result"] = r
        m["s"] = round(time.time() - t, 1)
        open(path, "w").write(orig)
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()


def main():
    n, lanes, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    files = [f"src/{x}" for x in os.popen(f"cd {REPO}/src && find . -name '*.rs' | grep -v test_ | sed 's#^./##' | sort").read().split()]
    rx = sys.argv[4] if len(sys.argv) > 4 else "."
    all_ = [m for f in files if re.search(rx, f) for m in mutants(f)]
    r = random.Random(seed)
    # conversions in between are mostly without effect
    all_ = [m for m in all_ if "in between" not in m["what"] or r.random() < 0.15]
    r.shuffle(all_)
    done = set()
    os.makedirs(MUT, exist_ok=True)
    res = f"{MUT}/results.jsonl"
    if os.path.exists(res):
        done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(res))}
    all_ = [m for m in all_ if (m["file"], m["a"], m["b"], m["new"]) not in done]
    # spread over the lines
    count, queue = {}, []
    for m in all_:
        k = (m["file"], m["line"])
        m["rank"] = count.get(k, 0)
        count[k] = m["rank"] + 1
    all_.sort(key=lambda m: m["rank"])
    queue = all_[:n]
    print(len(all_), "candidates,", len(queue), "taken", flush=True)
    r.shuffle(queue)
    lock = threading.Lock()
    with open(res, "a") as out:
        ts = [threading.Thread(target=lane, args=(i, queue, out, lock)) for i in range(lanes)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
