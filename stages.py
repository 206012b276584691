"""Sanitizer stages of the thorough tier: the workloads under AddressSanitizer (the toolchain of the
repository), ThreadSanitizer (nightly, standard library rebuilt with it) and the undefined-behaviour
interpreter Miri (nightly). A stage which cannot be built is noted in the evidence, it gives no verdict.
"""
import fcntl
import os
import re
import shutil
import subprocess
import time

TARGET = "x86_64-unknown-linux-gnu"


def note(notes, c, **kw):
    notes.append(kw)
    c.log("stage:", kw)


def cargo(c, args, env, timeout):
    try:
        p = subprocess.run(["cargo"] + args, cwd=f"{c.V}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, f"no end within {timeout} s"


def locked(c, f):
    with open(f"{c.BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        c.derive_manifest()
        return f()


def violation(m, tmp, name, what, output):
    m.viol.append(what)
    path = f"{tmp}/{name}.txt"
    open(path, "w").write(what + "\n" + output)
    return path


def asan(c, prop, features, seed, scale, tmp, m, known, notes, envs):
    env = c.cargo_env(f"{c.BUILD}/target-asan")
    env.update(RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1")
    rc, out = locked(c, lambda: cargo(c, ["rustc", "--offline", "--bin", "mon", "--features", features, "--target", TARGET, "--release"], env, 800))
    if rc:
        return note(notes, c, stage="asan", result="not built", output=out[-500:])
    binary = f"{tmp}/mon-asan"
    shutil.copy(f"{c.BUILD}/target-asan/{TARGET}/release/mon", binary)
    before = m.calls
    opts = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:log_path=" + f"{tmp}/asan-report"}
    r = c.run_mon(binary, prop, "quick", seed + 7_000_001, "asan", scale, tmp, m, known, envs[0], 900, key="asan", extra_env=opts)
    if r:
        for f in sorted(os.listdir(tmp)):
            if f.startswith("asan-report"):
                open(r, "a").write("\n" + open(f"{tmp}/{f}", errors="replace").read()[:20000])
    note(notes, c, stage="asan", result="violation" if r else "no report", calls=m.calls - before)
    return r


def select(c, tmp, seed, rounds):
    """The calls which are not rejected, decided by the native build (a rejection is a panic, which ends
    the process in the newer toolchain of the sanitizers)."""
    env = c.cargo_env(f"{c.BUILD}/target-debug")
    rc, out = locked(c, lambda: cargo(c, ["rustc", "--offline", "--bin", "ub", "--features", "pure"], env, 800))
    if rc:
        return None
    p = subprocess.run([f"{c.BUILD}/target-debug/debug/ub", "select", str(seed), str(rounds)], stdout=subprocess.PIPE, text=True, timeout=300)
    if p.returncode:
        return None
    path = f"{tmp}/select-{seed}-{rounds}"
    open(path, "w").write(p.stdout)
    return path


def rejected(path, output):
    """Another version of the standard library may reject a call (e.g. Duration::div_f32): leaves it out."""
    last = [x for x in output.splitlines() if x.startswith("call ")][-1:]
    if "cannot unwind" not in output or not last or "calls of two threads" in output:
        return False
    k = last[0].split()[1]
    picked = open(path).read().split()
    open(path, "w").write(" ".join(x for x in picked if x != k))
    return k in picked


def tsan(c, prop, features, seed, scale, tmp, m, known, notes, envs):
    env = c.cargo_env(f"{c.BUILD}/target-tsan")
    env.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=thread -Cdebuginfo=1")
    rc, out = locked(c, lambda: cargo(c, ["rustc", "--offline", "-Zbuild-std", "--bin", "ub", "--features", "pure", "--target", TARGET, "--release"], env, 800))
    if rc:
        return note(notes, c, stage="tsan", result="not built", output=out[-500:])
    binary = f"{tmp}/ub-tsan"
    shutil.copy(f"{c.BUILD}/target-tsan/{TARGET}/release/ub", binary)
    t, calls, runs, skipped, again = time.time(), 0, 0, 0, None
    while time.time() - t < 120 and runs < 200:
        s = seed * 1000 + runs
        if again:
            args, again = again, None
        elif prop == "C30":
            lst = select(c, tmp, s, 8)
            if not lst:
                return note(notes, c, stage="tsan", result="no native build to select calls with")
            args = ["cases", str(s), "8", lst]
        else:
            args = ["blocks", str(s), "4000", f"{c.REPO}/iec61131-st"]
        e = dict(os.environ)
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        try:
            p = subprocess.run([binary] + args, env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            return note(notes, c, stage="tsan", result="a run did not end within 300 s")
        if p.returncode == 66 and "WARNING: ThreadSanitizer: data race" in p.stderr:
            rep = p.stderr[p.stderr.index("WARNING: ThreadSanitizer"):]
            where = re.findall(r"#\d+ (\S+)", rep)
            note(notes, c, stage="tsan", result="violation", calls=calls)
            return violation(m, tmp, "tsan", f"data race between calls of two threads: {', '.join(where[:4])} (ub {' '.join(args[:3])})", rep[:20000])
        if args[0] == "cases" and p.returncode and skipped < 50 and rejected(args[3], p.stderr):
            skipped += 1
            again = args
            continue
        d = re.search(r"DONE (\d+)", p.stdout)
        if p.returncode or not d:
            return note(notes, c, stage="tsan", result=f"a run ended with {p.returncode}", output=p.stderr[-500:])
        calls += int(d.group(1))
        runs += 1
    note(notes, c, stage="tsan", result="no report", calls=calls, runs=runs, skipped=skipped)
    m.evals += calls
    m.calls += calls
    return None


def miri(c, prop, features, seed, scale, tmp, m, known, notes, envs):
    env = c.cargo_env(f"{c.BUILD}/target-miri")
    env.update(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows")
    rc, out = locked(c, lambda: cargo(c, ["miri", "setup"], env, 600))
    if rc:
        return note(notes, c, stage="miri", result="not available", output=out[-500:])
    t, calls, runs, skipped, again = time.time(), 0, 0, 0, None
    while time.time() - t < 240 and runs < 20:
        s = seed * 1000 + 500 + runs
        if again:
            args, again = again, None
        elif prop == "C23":
            args = ["blocks", str(s), "12", f"{c.REPO}/iec61131-st"]
        else:
            lst = select(c, tmp, s, 1)
            if not lst:
                return note(notes, c, stage="miri", result="no native build to select calls with")
            args = ["cases", str(s), "1", lst]
        rc, out = locked(c, lambda: cargo(c, ["miri", "run", "--offline", "--bin", "ub", "--features", "pure", "--"] + args, env, 700))
        if "error: Undefined Behavior" in out:
            k = out.index("error: Undefined Behavior")
            before = [x for x in out[:k].splitlines() if x.startswith(("call ", "instances of ", "calls of "))][-1:]
            note(notes, c, stage="miri", result="violation", calls=calls)
            return violation(m, tmp, "miri", f"{out[k:].splitlines()[0]} after '{''.join(before)}' (ub {' '.join(args[:3])})", out[k:k + 20000])
        if args[0] == "cases" and rc and skipped < 50 and rejected(args[3], out):
            skipped += 1
            again = args
            continue
        d = re.search(r"DONE (\d+)", out)
        if rc or not d:
            return note(notes, c, stage="miri", result=f"a run ended with {rc}", output=out[-500:])
        calls += int(d.group(1))
        runs += 1
    note(notes, c, stage="miri", result="no report", calls=calls, runs=runs, skipped=skipped)
    m.evals += calls
    m.calls += calls
    return None


def run(stage, *args):
    return {"asan": asan, "tsan": tsan, "miri": miri}[stage](*args)
