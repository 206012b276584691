#!/usr/bin/env python3
"""Driver of the monitors: check.py <property> [quick|thorough], check.py setup.

Builds the library of /repo's working tree together with the harness in both build profiles, runs
the monitors of one property, merges what they observed into evidence/<property>.json.
Exit 0: held on everything observed; 1: violated (VIOLATION line); 2: no verdict.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
TOOLCHAIN = "1.80.1"  # the toolchain of the repository's build

UTC, CET, IST = {"TZ": "UTC"}, {"TZ": "Europe/Berlin"}, {"TZ": "<+0530>-5:30"}
# west of UTC, half hours, daylight saving time of half an hour south of the equator, more than half a day
NST, LHST, LINT = {"TZ": "America/St_Johns"}, {"TZ": "Australia/Lord_Howe"}, {"TZ": "Pacific/Kiritimati"}
# Only TIME() knows about time zones. Where a property does not name one, every run happens in another one
ANY = [NST, LHST, CET, LINT, UTC, IST]

# Nothing depends on the language of the user either: decimal comma, another case mapping, debugging aids
LANGUAGES = [
    {"LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8", "LC_TIME": "de_DE.UTF-8", "LANGUAGE": "de", "DEBUG": "1"},
    {"LANG": "C", "LC_ALL": "C", "RUST_LOG": "trace", "DEBUG": "0", "NO_COLOR": "1"},
    {"LANG": "tr_TR.ISO-8859-9", "LC_CTYPE": "tr_TR.ISO-8859-9", "RUST_BACKTRACE": "1"},
    {"LANG": "", "LC_ALL": ""},
]

# property: (features, scale of the quick tier, environments, sanitizer stages of the thorough tier)
P = {
    "C01": ("strings", 5, [{}], ["asan"]),
    "C02": ("strings", 5, [{}], ["asan"]),
    "C03": ("strings", 8, [{}], ["asan"]),
    "C04": ("strings", 10, [{}], ["asan"]),
    "C05": ("strings", 6, [{}], ["asan", "miri"]),
    "C06": ("strings", 10, [{}], ["asan"]),
    "C07": ("numtext", 16, [{}], ["asan"]),
    "C08": ("numtext", 4, [{}], ["asan"]),
    "C09": ("numtext", 3, [{}], ["asan"]),
    "C10": ("numtext", 6, [{}, {}], ["asan"]),
    "C11": ("datetime", 2, [{}], ["asan"]),
    "C12": ("datetime", 3, [{}], ["asan"]),
    "C13": ("datetime", 2.5, [{}], ["asan"]),
    "C14": ("datetime", 2, [{}], ["asan"]),
    "C15": ("datetime", 5, [{}], ["asan"]),
    "C16": ("datetime", 10, [{}, {}], ["asan"]),
    "C17": ("datetime", 1, [UTC, CET, IST, NST, LHST], ["asan"]),
    "C18": ("fbs", 2.5, [{}], ["asan"]),
    "C19": ("fbs", 8, [{}], ["asan"]),
    "C20": ("fbs", 8, [{}], ["asan"]),
    "C21": ("fbs", 8, [{}], ["asan"]),
    "C22": ("fbs", 8, [{}], ["asan"]),
    "C23": ("fbs", 6, [{}], ["asan", "tsan", "miri"]),
    "C24": ("bits", 10, [{}], []),
    "C25": ("bits", 2, [{}], []),
    "C26": ("bits", 12, [{}], []),
    "C27": ("bits", 1, [{}], ["asan"]),
    "C28": ("floats", 8, [{}], []),
    "C29": ("floats", 30, [{}], []),
    "C30": ("pure", 30, [{}], ["asan", "tsan", "miri"]),
    "C31": ("st", 30, [{}], []),
    "C32": ("st", 12, [{}], []),
    "C33": ("st", 2, [{}], []),
    "C34": ("st", 1, [{}], ["asan"]),
    "C35": ("st", 40, [{}], ["asan"]),
    "C37": ("st", 8, [{}], []),
    "C36": ("heap", 10, [{}], []),
    "C39": ("heap", 6, [{}], []),
    "C40": ("heap", 2, [{}], []),
    "C38": ("strings", 10, [{}], ["asan"]),
}

SRC_OF = {
    "strings": "texts and positions", "numtext": "values and texts", "datetime": "dates, times and durations",
    "fbs": "histories of inputs and clock readings of function block instances", "bits": "operands", "floats": "operands",
    "st": "arguments of ST functions", "heap": "calls repeated in a row, with changing arguments and in histories of instances", "pure": "calls of all stateless functions, alone, repeated and concurrent",
}


class Fail(Exception):
    """No verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def derive_manifest():
    """The manifest of the library without what needs git dependencies (as /opt/vp/build.sh does)."""
    text = open(f"{REPO}/Cargo.toml").read()
    kept = []
    for table in re.split(r"(?m)^(?=\[)", text):
        header = table.split("\n", 1)[0].strip()
        if header.startswith(("[build-dependencies", "[dev-dependencies", "[[test", "[[bench", "[[example", "[[bin", "[workspace", "[profile")):
            continue
        if header == "[package]":
            table = re.sub(r"(?m)^(build|autotests|autobins|autoexamples|autobenches)\s*=.*\n", "", table)
            table = table.replace("[package]", "[package]\nbuild = false\nautotests = false\nautobins = false\nautoexamples = false\nautobenches = false", 1)
        if header == "[lib]":
            m = re.search(r'(?m)^\s*path\s*=\s*"(.*)"', table)
            path = os.path.join(REPO, m.group(1) if m else "src/lib.rs")
            table = re.sub(r"(?m)^\s*path\s*=.*\n", "", table)
            table = re.sub(r"(?m)^crate-type\s*=.*$", 'crate-type = ["lib"]', table)
            table = table.replace("[lib]", f'[lib]\npath = "{path}"', 1)
        kept.append(table.rstrip() + "\n\n")
    if not any(k.startswith("[lib]") for k in kept):
        kept.append(f'[lib]\npath = "{REPO}/src/lib.rs"\n\n')
    new = "".join(kept)
    os.makedirs(f"{BUILD}/lib", exist_ok=True)
    out = f"{BUILD}/lib/Cargo.toml"
    if not os.path.exists(out) or open(out).read() != new:
        open(out, "w").write(new)


def cargo_env(target):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def cargo(args, env, timeout=800):
    p = subprocess.run(["cargo"] + args, cwd=f"{V}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def build(features, tmp, profiles=("debug", "release"), quiet=False):
    """Returns the monitor's binary per profile; copies, since other checks may build meanwhile."""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        derive_manifest()
        running = []
        for prof in profiles:
            # a target directory per profile: cargo's own lock would serialize the builds
            env = cargo_env(f"{BUILD}/target-{prof}")
            args = ["rustc", "--offline", "--bin", "mon", "--features", features] + (["--release"] if prof == "release" else [])
            f = open(f"{tmp}/build-{prof}.log", "w+")
            running.append((prof, env, args, f, subprocess.Popen(["cargo"] + args, cwd=f"{V}/harness", env=env, stdout=f, stderr=f)))
        for prof, env, args, f, p in running:
            try:
                rc = p.wait(timeout=800)
            except subprocess.TimeoutExpired:
                p.kill()
                raise Fail("the build did not end within 800 s")
            f.seek(0)
            text = f.read()
            missing = sorted(set(re.findall(r"undefined (?:reference to|symbol:) [`']?([A-Za-z_][A-Za-z0-9_]*)", text)))
            if rc and missing:
                # a function is not exported any more: only calling it is a violation
                log("not exported by the library:", " ".join(missing))
                open(f"{tmp}/gone.txt", "w").write(" ".join(missing))
                with open(f"{tmp}/stubs.c", "w") as c:
                    for m in missing:
                        c.write(f"void {m}(void) {{ __builtin_trap(); }}\n")
                subprocess.run(["gcc", "-c", f"{tmp}/stubs.c", "-o", f"{tmp}/stubs.o"], check=True)
                rc, text = cargo(args + ["--", "-C", f"link-arg={tmp}/stubs.o"], env)
            if rc:
                log(text[-6000:])
                raise Fail(f"the {prof} build failed")
            out[prof] = f"{tmp}/mon-{prof}"
            shutil.copy(f"{BUILD}/target-{prof}/{prof}/mon", out[prof])
    return out


class Merge:
    def __init__(self):
        self.evals = self.calls = self.panics = 0
        self.distinct = {}
        self.functions = set()
        self.events, self.samples, self.viol, self.known, self.missing, self.runs = {}, [], [], {}, [], []

    def add(self, d, key):
        self.evals += d["evaluations"]
        self.calls += d["calls"]
        self.panics += d["panics"]
        # repetitions with other builds or environments do not make cases distinct
        self.distinct[key] = max(self.distinct.get(key, 0), d["distinct"])
        for k, v in d["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        self.functions |= set(d.get("functions", []))
        for k, v in d["known"].items():
            self.known[k] = self.known.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples += d["samples"][:6]
        self.viol += d["violations"]
        self.missing += d["missing"]


def known_signatures(prop):
    """Signatures of the recorded, not repaired findings: lines 'known: property=C01 sig=<sig> <text>'."""
    out = {}
    path = f"{V}/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def run_mon(binary, prop, tier, seed, profile, scale, tmp, m, known, env_add, timeout, threads=8, key="main", extra_env=None):
    out, rep = f"{tmp}/out.json", f"{tmp}/replay-{len(m.runs)}.txt"
    for f in (out, rep, out + ".crash"):
        if os.path.exists(f):
            os.remove(f)
    env = dict(os.environ)
    env.pop("TZ", None)
    env.update(env_add)
    env.update(extra_env or {})
    if os.path.exists(f"{tmp}/gone.txt"):
        env["VERIF_GONE"] = open(f"{tmp}/gone.txt").read()
    cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--profile", profile, "--scale", str(scale), "--out", out, "--replay", rep,
           "--threads", str(threads), "--st", f"{REPO}/iec61131-st", "--src", f"{REPO}/src", "--known", ",".join(known)]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Fail(f"the monitors of {prop} ({profile}) did not end within {timeout} s")
    m.runs.append({"profile": profile, "seed": seed, "scale": scale, "env": env_add, "wall_s": round(time.time() - t, 1), "exit": p.returncode})
    d = None
    if p.returncode in (0, 1, 2) and os.path.exists(out):
        try:
            d = json.load(open(out))
        except ValueError:
            pass
    if d is None and os.path.exists(out + ".crash") and os.path.getsize(out + ".crash"):
        # the process ended inside of a monitored call
        crash = open(out + ".crash", errors="replace").read().strip()
        m.viol.append(f"[{prop} profile={profile}] {crash}")
        open(rep, "w").write(f"property={prop} tier={tier} seed={seed} profile={profile} scale={scale}\n{crash}\n")
        return rep
    if d is not None:
        m.add(d, key)
        if p.returncode == 1 and d["violations"]:
            return rep
        if p.returncode == 0:
            return None
    log(p.stderr[-3000:])
    raise Fail(f"the monitors of {prop} ({profile}) gave no verdict: exit {p.returncode}")


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    prop = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if prop == "setup":
            # warms the build directories; every check builds on its own
            for f in sorted({v[0] for v in P.values()}):
                build(f, tmp)
            sys.exit(0)
        sys.exit(check(prop, tmp))
    except Fail as e:
        log(f"INCONCLUSIVE property={prop}: {e}")
        sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tmp):
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    features, scale, envs, stages = P[prop]
    # only for mutlab.py, which takes a first look with less work
    scale *= float(os.environ.get("VERIF_SCALE", "1"))
    profiles = os.environ.get("VERIF_PROFILES", "debug,release").split(",")
    t0 = time.time()
    m = Merge()
    known = known_signatures(prop)
    replay = None
    notes = []
    bins = build(features, tmp, profiles)
    built = time.time() - t0
    rounds = 1 if tier == "quick" else int(os.environ.get("VERIF_ROUNDS", "12"))
    budget = 600 if tier == "quick" else 1500
    done = 0
    for k in range(rounds):
        if k and time.time() - t0 > 600:
            break
        for profile in profiles:
            # the builds get different workloads
            s = seed + 1_000_003 * k + (500_009 if profile == "release" else 0)
            for env in envs:
                sc = scale if tier == "quick" else scale * 4
                env = {**LANGUAGES[len(m.runs) % len(LANGUAGES)], **(env or ANY[len(m.runs) % len(ANY)])}
                r = run_mon(bins[profile], prop, tier, s, profile, sc, tmp, m, known, env, budget, key=f"{k}")
                if r and not replay:
                    replay = r
            if m.viol:
                break
        done += 1
        if m.viol:
            break
    if tier == "thorough" and not m.viol:
        import stages as st
        for stage in stages:
            r = st.run(stage, sys.modules[__name__], prop, features, seed, scale, tmp, m, known, notes, envs)
            if r and not replay:
                replay = r
            if m.viol:
                break
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{BUILD}/replay", exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": m.evals,
            "distinct_nontrivial": sum(m.distinct.values()),
            "rule": "One evaluation is one judged execution of the real functions (" + SRC_OF[features] + "), generated from the seed, from boundary values and literals of the "
                    "sources, or enumerated; distinct ones are counted by hashing the case (function, arguments, history) into a bitmap, non-trivial is decided per case by the "
                    "monitor (e.g. not an empty text, not a neutral operand); repetitions in other builds and environments are not counted again.",
            "samples": m.samples[:12],
            "calls": m.calls,
            "rejected_calls": m.panics,
            "functions_called": sorted(m.functions),
            "events": m.events,
            "runs": m.runs,
            "rounds": done,
            "build_s": round(built, 1),
            "stages": notes,
        },
        "assumptions": ["the build uses the toolchain 1.80.1 of the repository, x86_64 Linux, little endian; debug build with overflow checks and release build without",
                        "ST sources are executed by the harness' own interpreter (rusty is not available offline), with the semantics listed in DESIGN.md" if features == "st" else
                        "the ST sources are not compiled (no rusty offline): functions are called through their exported symbols"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(m.viol),
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for sig, text in known.items():
        if sig in m.known:
            print(f"KNOWN-FINDING: property={prop} {text} (sig={sig}, seen {m.known[sig]} times)")
    if m.viol:
        path = f"{BUILD}/replay/{prop}-{tier}-{seed}.txt"
        if replay and os.path.exists(replay):
            shutil.copy(replay, path)
        else:
            open(path, "w").write("\n".join(m.viol) + "\n")
        for v in m.viol[:5]:
            print(v[:1500])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    print(f"OK property={prop} tier={tier} seed={seed}: {m.evals} executions judged ({sum(m.distinct.values())} distinct and non-trivial), "
          f"{len(m.events)} kinds of events, {time.time() - t0:.0f} s", flush=True)
    return 0


if __name__ == "__main__":
    main()
