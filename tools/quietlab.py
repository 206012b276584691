#!/usr/bin/env python3
"""quietlab.py DIR script.py [property ...]: every check has to stay quiet after a refactoring.

DIR/repo is made a copy of /repo, script.py edits it (its argument is the copy), the tests and all checks run on it.
"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, script, props = os.path.abspath(sys.argv[1]), sys.argv[2], sys.argv[3:]
sys.path.insert(0, V)


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", shell=isinstance(cmd, str), **kw)
    return p.returncode, p.stdout


repo, ver = f"{L}/repo", f"{L}/verif"
sh(f"mkdir -p {L}/test {ver}; rm -rf {repo}; cp -a /repo {repo}; rm -rf {repo}/target; cd {V} && tar cf - --exclude=.git --exclude='seeded*' --exclude=build . | tar xf - -C {ver}")
rc, o = sh(["python3", script, repo])
if rc:
    sys.exit(o)
der = open("/opt/vp/rustlib/derive.py").read().replace('REPO = "/repo"', f'REPO = "{repo}"').replace('OUT = "/opt/vp/rustlib/Cargo.toml"', f'OUT = "{L}/test/Cargo.toml"')
open(f"{L}/derive.py", "w").write(der)
shutil.copy("/opt/vp/rustlib/Cargo.lock", f"{L}/test/Cargo.lock")
env = dict(os.environ, PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", RUSTUP_TOOLCHAIN="1.80.1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{L}/test/target", CARGO_INCREMENTAL="1")
sh(["python3", f"{L}/derive.py"])
rc, o = sh(["cargo", "test", "--manifest-path", f"{L}/test/Cargo.toml", "--no-fail-fast", "--offline"], env=env, cwd=repo)
print("tests", rc, flush=True)
if rc:
    print("\n".join(l for l in o.splitlines() if "FAILED" in l or l.startswith("error"))[:3000], o[-1500:])
    if "error" in o and "could not compile" in o:
        sys.exit(1)
for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]:
    p = c["property_id"] if "property_id" in c else c["property"]
    if props and p not in props:
        continue
    t = time.time()
    rc, o = sh(["python3", f"{ver}/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=repo))
    print(p, "quiet" if rc == 0 else f"ALARM rc={rc} {o[-1200:]}", f"{time.time() - t:.0f} s", flush=True)
