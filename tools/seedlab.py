#!/usr/bin/env python3
"""Planted bugs: seedlab.py make          writes seeded/<id>/ from tools/seeds/*.py
                 seedlab.py lab [id ...]  validates them in a scratch copy (build, tests, demonstration) and runs the check of their property
"""
import difflib, glob, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAB = os.environ.get("LAB", "/tmp/lab")
REPO = "/repo"

DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against the library of the current directory; fails if the property is broken.
src=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.80.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
mkdir -p "$d/lib" "$d/demo/src"
python3 - "$repo" "$d/lib/Cargo.toml" <<'P' || exit 3
import re, sys
repo, out = sys.argv[1:]
kept = []
for t in re.split(r"(?m)^(?=\[)", open(repo + "/Cargo.toml").read()):
    h = t.split("\n", 1)[0].strip()
    if h.startswith(("[build-dep", "[dev-dep", "[[")):
        continue
    if h == "[package]":
        t = re.sub(r"(?m)^(build|auto\w+)\s*=.*\n", "", t).replace("[package]", "[package]\nbuild = false\nautotests = false", 1)
    if h == "[lib]":
        t = '[lib]\npath = "%s/src/lib.rs"\ncrate-type = ["lib"]\n' % repo
    kept.append(t.rstrip() + "\n\n")
open(out, "w").write("".join(kept))
P
cat > "$d/demo/Cargo.toml" <<'C'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
iec61131std = { path = "../lib" }
[workspace]
[profile.release]
overflow-checks = false
C
cp "$src/demo.rs" "$d/demo/src/main.rs"
cp "$src/Cargo.lock" "$d/demo/Cargo.lock"
cd "$d/demo" && cargo build --offline PROFILE > "$d/log" 2>&1 || { cat "$d/log"; exit 3; }
cd "$d" && timeout 120 "$d/target/DIR/demo"
'''
PRE = '''// Exits with 0 if the property holds.
#![allow(non_snake_case, dead_code, unused_imports, clashing_extern_declarations)]
use iec61131std as _;
use std::panic::catch_unwind;
fn s8(t: &str) -> Vec<u8> {
    let mut v = t.as_bytes().to_vec();
    v.push(0);
    v
}
fn s16(t: &str) -> Vec<u16> {
    let mut v: Vec<u16> = t.encode_utf16().collect();
    v.push(0);
    v
}
/// The text in front of the terminator
fn t8(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).into_owned()
}
fn t16(b: &[u16]) -> String {
    String::from_utf16_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())])
}
fn quiet() {
    std::panic::set_hook(Box::new(|i| if i.location().map_or(true, |l| l.file().ends_with("src/main.rs")) { eprintln!("{i}") }));
}
'''


def load():
    out = []
    for f in sorted(glob.glob(f"{V}/tools/seeds/*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["SEEDS"]
    return out


def where(s):
    """changes of .st files are kept apart: only source code in a language vcheck knows may be planted under seeded/"""
    return f"{V}/{'seeded-st' if s.get('st') else 'seeded'}/{s['id']}"


def patch_of(edits):
    """edits: (file, old, new[, occurrence])"""
    texts = {}
    for e in edits:
        f, old, new = e[:3]
        t = texts.get(f) or open(f"{REPO}/{f}").read()
        n = e[3] if len(e) > 3 else None
        if n is None:
            assert t.count(old) == 1, (f, old, t.count(old))
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            assert len(parts) > n + 1, (f, old, len(parts))
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        texts[f] = t
    out = ""
    for f, t in texts.items():
        a = open(f"{REPO}/{f}").read().splitlines(True)
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a, t.splitlines(True), f"a/{f}", f"b/{f}"))
    return out


def make():
    for s in load():
        d = where(s)
        os.makedirs(d, exist_ok=True)
        p = patch_of(s["edits"])
        open(f"{d}/patch.diff", "w").write(p)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        if s.get("st"):
            open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# Executes ST functions of the current directory; fails if the property is broken.\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
            open(f"{d}/demo.py", "w").write(open(f"{V}/tools/seeds/stmini.txt").read() + "\n" + s["demo"].strip() + "\n")
            continue
        rel = s.get("release")
        open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("PROFILE", "--release" if rel else "").replace("target/DIR", "target/release" if rel else "target/debug"))
        open(f"{d}/demo.rs", "w").write(PRE + s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        lock = open(f"{V}/harness/Cargo.lock").read().replace('name = "harness"', 'name = "demo"')
        lock = lock.replace(' "num",\n "paste",\n]', ']', 1) if False else re.sub(r'(name = "demo"\nversion = "0.1.0"\ndependencies = \[\n)(?: .*\n)*?( "iec61131std",\n)(?: .*\n)*?\]', r'\1\2]', lock)
        open(f"{d}/Cargo.lock", "w").write(lock)
        if open(f"{d}/patch.diff").read() == "":
            print("EMPTY", s["id"])
    print(len(load()), "seeds")


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout


def lab(ids):
    os.makedirs(LAB, exist_ok=True)
    repo, ver = f"{LAB}/repo", f"{LAB}/verif"
    sh(f"rm -rf {repo}; cp -a /repo {repo}; mkdir -p {ver} {LAB}/test")
    sh(f"rsync -a --delete --exclude build --exclude .git --exclude seeded --exclude seeded-st {V}/ {ver}/ || (rm -rf {ver}/harness {ver}/*.py; cp -a {V}/harness {V}/*.py {V}/known-findings.txt {ver}/)")
    der = open("/opt/vp/rustlib/derive.py").read().replace('REPO = "/repo"', f'REPO = "{repo}"').replace('OUT = "/opt/vp/rustlib/Cargo.toml"', f'OUT = "{LAB}/test/Cargo.toml"')
    open(f"{LAB}/derive.py", "w").write(der)
    shutil.copy("/opt/vp/rustlib/Cargo.lock", f"{LAB}/test/Cargo.lock")
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", RUSTUP_TOOLCHAIN="1.80.1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{LAB}/test/target", CARGO_INCREMENTAL="1")
    res_path = f"{LAB}/results.json"
    results = json.load(open(res_path)) if os.path.exists(res_path) else {}
    for s in load():
        if ids and not any(re.fullmatch(i, s["id"]) for i in ids):
            continue
        if not ids and results.get(s["id"], {}).get("caught"):
            continue
        d = where(s)
        r = {"property": s["property"]}
        sh("git checkout -- .", cwd=repo)
        if s.get("st"):
            shutil.copy("/repo/target/debug/libiec61131std.so", f"{repo}/target/debug/")
        if os.environ.get("CLEAN", "1") == "1":
            rc, out = sh(["bash", f"{d}/demo.sh"], cwd=repo)
            r["demo_clean"] = rc
            if rc:
                print(out[-1500:])
        rc, out = sh(["git", "apply", f"{d}/patch.diff"], cwd=repo)
        r["apply"] = rc
        if rc:
            print(out)
        sh(["python3", f"{LAB}/derive.py"])
        rc, out = sh(["cargo", "test", "--manifest-path", f"{LAB}/test/Cargo.toml", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], env=env, cwd=repo)
        r["tests"] = rc
        if rc:
            print('tests fail:', ' '.join(re.findall(r'test (\S+) ... FAILED', out)) or out[-600:])
        if s.get("st"):
            sh(["cargo", "build", "--manifest-path", f"{LAB}/test/Cargo.toml", "--offline"], env=env, cwd=repo)
            os.makedirs(f"{repo}/target/debug", exist_ok=True)
            shutil.copy(f"{LAB}/test/target/debug/libiec61131std.so", f"{repo}/target/debug/")
        rc, out = sh(["bash", f"{d}/demo.sh"], cwd=repo)
        r["demo_patched"] = rc
        r["demo_out"] = out[-300:]
        t = time.time()
        rc, out = sh(["python3", f"{ver}/check.py", s["property"], "quick"], env=dict(os.environ, VERIF_REPO=repo), timeout=1500)
        r["check"] = rc
        r["check_s"] = round(time.time() - t, 1)
        r["out"] = out[-700:]
        r["caught"] = rc == 1 and f"VIOLATION property={s['property']} " in out
        valid = r.get("demo_clean", 0) == 0 and r["apply"] == 0 and r["tests"] == 0 and r["demo_patched"] not in (0, 3)
        r["valid"] = valid
        print(s["id"], s["property"], "VALID" if valid else f"INVALID clean={r.get('demo_clean')} tests={r['tests']} demo={r['demo_patched']} {r['demo_out'][-200:] if r['demo_patched'] == 3 else ''}", "CAUGHT" if r["caught"] else f"MISSED rc={rc} {out[-300:]}", flush=True)
        results[s["id"]] = r
        json.dump(results, open(res_path, "w"), indent=1)
        sh("git checkout -- .", cwd=repo)
    v = [k for k, x in results.items() if x["valid"]]
    print(len(v), "valid;", sum(results[k]["caught"] for k in v), "caught; missed:", [k for k in v if not results[k]["caught"]])


if sys.argv[1] == "make":
    make()
else:
    lab(sys.argv[2:])
