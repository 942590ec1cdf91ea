#!/usr/bin/env python3
"""Maintain /verif/seeded.   seed.py new SPEC.py   |   seed.py verify ID...   |   seed.py catch ID...

A SPEC.py sets id, property, edits [(file, old, new)], demo (Rust source of a main.rs against the bfffs-core of /opt/vp/ws/gen),
needs, breaks.  Never run by a check."""
import json, os, subprocess, sys, time
V = "/verif"; R = "/repo"
DEMO = r'''#!/bin/bash
# Builds demo.rs against the parts of /repo that compile here and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/ws/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp /opt/vp/ws/gen/Cargo.lock "$T/"
cat > "$T/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bfffs-core = { path = "/opt/vp/ws/gen/bfffs-core" }
divbuf = { version = "0.4.0", features = ["experimental"] }
fixedbitset = { version = "0.4.0", default-features = false }
futures = "0.3.31"
X
export CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
cd "$T" || exit 3
cargo build --offline -q || exit 3
timeout 120 "$T/target/debug/demo"
'''


def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): assert sh("git -C /repo status --porcelain -uno").stdout == "", "dirty /repo"


def new(spec):
    g = {}; exec(open(spec).read(), g); clean()
    d = f"{V}/seeded/{g['id']}"; os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in g["edits"]:
            p = f"{R}/{f}"; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    if "demo" in g:
        open(f"{d}/demo.rs", "w").write(g["demo"]); open(f"{d}/demo.sh", "w").write(g.get("demo_sh", DEMO))
    elif "demo_sh" in g:
        open(f"{d}/demo.sh", "w").write(g["demo_sh"])
    for n, t in g.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    return g["id"]


def run_demo(i):
    t = time.time(); r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=R, timeout=400); return r.returncode, r.stdout[-400:], time.time() - t


def verify(i, catch=True, demo=True):
    clean(); d = f"{V}/seeded/{i}"; prop = json.load(open(f"{d}/meta.json"))["property"]; out = [i, prop]
    if demo:
        rc, o, t = run_demo(i); out.append(f"clean demo={rc} {t:.0f}s"); bad = rc != 0
        if bad: out.append(o)
    r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
    try:
        if demo:
            b = sh("bash /opt/vp/build.sh"); out.append(f"build={b.returncode}")
            if b.returncode: out.append(b.stdout[-1500:])
            sh("bash /opt/vp/test.sh /tmp/seed-o.json"); o = json.load(open("/tmp/seed-o.json"))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); out.append(f"tests missing={sorted(st - set(o['passed']))[:3]}")
            rc, o, t = run_demo(i); out.append(f"patched demo={rc}"); out.append(o[-200:].replace("\n", " | "))
        if catch:
            t = time.time(); r = sh(f"VERIF_SEED=1 VERIF_TIER=quick VERIF_ROOT=/tmp/vr python3 {V}/run.py {prop}", env={k: v for k, v in os.environ.items()})
            out.append(f"CHECK rc={r.returncode} {time.time()-t:.0f}s " + ("CAUGHT " if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED ") + r.stdout[-300:].replace("\n", " | "))
    finally:
        sh("git -C /repo checkout -- .")
    if demo: sh("bash /opt/vp/build.sh")
    print("  ".join(out), flush=True)


if __name__ == "__main__":
    os.makedirs("/tmp/vr", exist_ok=True); sh("cp /verif/known-findings.txt /tmp/vr/")
    a = sys.argv
    if a[1] == "new":
        for s in a[2:]: verify(new(s))
    elif a[1] == "verify":
        for i in a[2:]: verify(i)
    elif a[1] == "catch":
        for i in a[2:]: verify(i, demo=False)
