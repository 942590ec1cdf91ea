#!/usr/bin/env python3
"""Run the check of one property: build its monitor from /repo's working tree, run it, pass on its verdict.

    run.py PROPERTY      exit 0: held; exit 1 and a VIOLATION line: broken; anything else: no answer
    run.py setup         build everything once
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
# property: the stages of its check, each (crate, arguments of the monitor)
CHECKS = {
    "C01": [("light", ["recover"])], "C02": [("light", ["parity"])], "C03": [("light", ["fence"])], "C04": [("light", ["layout"])],
    "C05": [("light", ["translate"])], "C06": [("light", ["cursor"])], "C07": [("light", ["pad"])], "C08": [("light", ["lru"])],
    "C09": [("light", ["fetch"])], "C10": [("light", ["credit"]), ("wbsim", ["split"])], "C11": [("light", ["bank"])], "C12": [("light", ["property"])],
    "C13": [("light", ["types"])], "C14": [("parser", [])], "C15": [("wbsim", ["bank"])],
    "C16": [("full", ["names", "C16"])], "C17": [("full", ["data", "C17"])], "C18": [("full", ["attrs", "C18"])], "C19": [("full", ["persist", "C19"])],
    "C20": [("full", ["space", "C20"])], "C21": [("full", ["crash", "C21"])],
    "C22": [("full", ["raid", "C22"])],
    "C23": [("full", ["degrade", "C23"])],
    "C24": [("full", ["rot", "C24"])],
    "C25": [("full", ["multi", "C25"])], "C26": [("full", ["sets", "C26"])],
    # apart from the rest, so that only this check depends on the server's source
    "C27": [("full+fuse", ["fuse", "C27"])],
    # the monitors of other properties, under valgrind
    "C28": [("memcheck", ["raid:C22", "degrade:C23", "data:C17", "names:C16", "rot:C24", "space:C20", "multi:C25", "sched:C29"])],
    "C29": [("full", ["sched", "C29"])],
    "C30": [("full+rpc", ["rpc", "C30"])],
    "C31": [("cli", [])],
    "C32": [("full", ["tree","C32"])],
}
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP}


def env():
    e = dict(os.environ)
    sh = "/opt/vp/ws/env.sh"
    if os.path.exists(sh):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % sh], stdout=subprocess.PIPE).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.partition(b"=")
            if k and not k.startswith(b"BASH_FUNC"):
                e[k.decode()] = v.decode("utf8", "replace")
    e.update(CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", VERIF_ROOT=ROOT)
    e.pop("RUSTFLAGS", None)
    return e


def build(crate, e):
    crate, _, feature = crate.partition("+")
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"] + (["--features", feature] if feature else [])
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        print("\n".join(r.stdout[r.stdout.find("error"):].splitlines()[:40]))
        print("%s does not build: no answer" % crate)
        sys.exit(2)
    return os.path.join(TARGET, "debug", crate)


def stage(prop, crate, args, e):
    t0 = time.time()
    exe = build(crate, e)
    print("built %s in %.0fs" % (crate, time.time() - t0), flush=True)
    ev = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    limit = float(os.environ.get("VERIF_WATCHDOG_S", "700" if e.get("VERIF_TIER", "quick") != "thorough" else "3600"))
    p = subprocess.Popen([exe] + args, env=e, stdout=sys.stdout, stderr=subprocess.PIPE, cwd=HERE, text=True, errors="replace", start_new_session=True)
    tail = []

    def pump():
        for l in p.stderr:
            tail.append(l.rstrip()[:2000])
            del tail[:-400]
    th = threading.Thread(target=pump, daemon=True); th.start()
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        print("\n".join(tail[-20:]))
        print("the watchdog ended the monitor after %.0fs: no answer" % limit)
        return 2
    th.join(5)
    if rc in (0, 1):
        return rc
    print("\n".join(tail[-30:]))
    # The monitors are safe Rust but for the calls they make; a crash is the crash of what they call
    what = None
    if rc < 0 and -rc in CRASH:
        what = "the process was ended by signal %d" % -rc
    elif rc == 101:
        pan = [l for l in tail if l.startswith("panic: ")]
        if pan and re.search(r" at (\S*/repo/|/repo/)", pan[-1]):
            what = pan[-1]
    if what:
        d = os.path.join(ROOT, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, prop + ".json")
        json.dump({"property": prop, "key": "crash", "what": what, "stderr": tail[-100:], "seed": e.get("VERIF_SEED", "1"),
                   "tier": e.get("VERIF_TIER", "quick"), "replay": "python3 /verif/run.py " + prop}, open(f, "w"), indent=1)
        json.dump({"property": prop, "tier": e.get("VERIF_TIER", "quick"), "seed": int(e.get("VERIF_SEED", "1")), "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run crashed", "samples": [what]}, "wall_s": time.time() - t0, "violations": 1}, open(ev, "w"), indent=1)
        print("violated: crash: " + what)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    print("the monitor ended with %d: no answer" % rc)
    return 2


def memcheck(prop, foci, e):
    """The full monitors under valgrind's memcheck: only what memcheck says counts here."""
    t0 = time.time()
    exe = build("full", e)
    print("built full in %.0fs" % (time.time() - t0), flush=True)
    thorough = e.get("VERIF_TIER", "quick") == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET_S", "600" if thorough else "100"))
    scratch = tempfile.mkdtemp(prefix="bfffs-memcheck.")
    ev = os.path.join(ROOT, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    evf = os.path.join(ev, prop + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    runs = []
    try:
        for f in foci:
            f, _, other = f.partition(":")
            d = os.path.join(scratch, f); os.mkdir(d)
            if os.path.exists(os.path.join(HERE, "known-findings.txt")):
                shutil.copy(os.path.join(HERE, "known-findings.txt"), d)
            out = open(os.path.join(d, "out"), "w")
            # the property of the focus itself is not what is decided here
            fe = dict(e, VERIF_ROOT=d, VERIF_TIER="quick", VERIF_BUDGET_S=str(budget))
            cmd = ["valgrind", "--log-file=" + os.path.join(d, "vg"), "--error-limit=no", "--num-callers=40", "--fullpath-after=", "--leak-check=no",
                   "--suppressions=" + os.path.join(HERE, "memcheck.supp"), exe, f, other]
            runs.append((f, d, other, subprocess.Popen(cmd, env=fe, stdout=out, stderr=subprocess.STDOUT, cwd=HERE, start_new_session=True), out))
        limit = t0 + float(os.environ.get("VERIF_WATCHDOG_S", "800" if not thorough else "3600"))
        cov = []; bad = []; silent = []
        for f, d, other, p, out in runs:
            try:
                rc = p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = None
            out.close()
            vg = open(os.path.join(d, "vg"), errors="replace").read() if os.path.exists(os.path.join(d, "vg")) else ""
            reports = [re.sub(r"(?m)^==\d+== ?", "", b) for b in re.split(r"(?m)^==\d+== \n", vg)]
            # reports: a first line that is no frame, then frames
            reps = [b for b in reports if re.search(r"(?m)^\s+(at|by) 0x", b)]
            mine = [b for b in reps if re.search(r"/repo/", b)]
            x = os.path.join(d, "evidence", other + ".json")
            c = json.load(open(x)) if os.path.exists(x) else None
            total = re.search(r"ERROR SUMMARY: (\d+) errors", vg)
            if c and total:
                c = c["coverage"]
                cov.append({"monitor": f, "evaluations": c["evaluations"], "distinct": c["distinct_nontrivial"], "observed": c.get("observed", {}), "memcheck errors": int(total.group(1)), "reports without a frame of bfffs": len(reps) - len(mine), "ended with": rc, "samples": c.get("samples", [])[:1]})
            elif not (mine or (rc is not None and rc < 0 and -rc in CRASH)):
                silent.append(f); print("the monitor %s ended with %s before it observed enough" % (f, rc)); print("\n".join(open(os.path.join(d, "out"), errors="replace").read().splitlines()[-5:])[:2000])
            if rc is not None and rc < 0 and -rc in CRASH:
                bad.append({"monitor": f, "what": "the process was ended by signal %d" % -rc, "report": vg[-4000:]})
            for b in mine[:3]:
                bad.append({"monitor": f, "what": b.strip().splitlines()[0].strip() + ", " + next((l.strip() for l in b.splitlines() if "/repo/" in l), ""), "report": b[:4000]})
    finally:
        for _, _, _, p, _ in runs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
        for n in os.listdir("/dev/shm"):
            if n in ["bfffs-mon.%d" % p.pid for _, _, _, p, _ in runs]:
                shutil.rmtree(os.path.join("/dev/shm", n), ignore_errors=True)
    evals = sum(c["evaluations"] for c in cov)
    res = {"property": prop, "tier": e.get("VERIF_TIER", "quick"), "seed": int(e.get("VERIF_SEED", "1")), "level": "exploration",
           "coverage": {"evaluations": evals, "distinct_nontrivial": sum(c["distinct"] for c in cov), "rule": "one evaluation = one evaluation of a monitor of C16 to C25 under valgrind's memcheck; distinct as those monitors count",
                        "samples": [c.pop("samples") for c in cov] or [b["what"] for b in bad] or ["none"], "monitors": cov},
           "assumptions": ["memcheck does not see accesses that stay inside one allocation, or memory that was freed and allocated again"], "wall_s": time.time() - t0, "violations": len(bad)}
    if bad:
        res["coverage"]["evaluations"] = max(1, evals); res["coverage"]["distinct_nontrivial"] = max(1, res["coverage"]["distinct_nontrivial"])
        json.dump(res, open(evf, "w"), indent=1)
        f = os.path.join(ev, "replay", prop + ".json")
        json.dump({"property": prop, "key": "memcheck", "reports": bad, "seed": e.get("VERIF_SEED", "1"), "replay": "python3 /verif/run.py " + prop}, open(f, "w"), indent=1)
        for b in bad:
            print("violated: %s: %s" % (b["monitor"], b["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if len(cov) < len(foci) // 2 or not evals:
        print("too few monitors observed anything: no answer")
        return 2
    json.dump(res, open(evf, "w"), indent=1)
    print("held property=%s evaluations=%d %s" % (prop, evals, {c["monitor"]: c["evaluations"] for c in cov}))
    return 0


def main():
    if len(sys.argv) != 2:
        print(__doc__); sys.exit(2)
    e = env()
    if sys.argv[1] == "setup":
        for c in sorted({c for v in CHECKS.values() for c, _ in v} - {"memcheck"}):
            build(c, e)
        return 0
    prop = sys.argv[1]
    ev = os.path.join(ROOT, "evidence", prop + ".json")
    done = []
    for crate, args in CHECKS[prop]:
        if crate == "memcheck":
            return memcheck(prop, args, e)
        rc = stage(prop, crate, args, e)
        if rc:
            return rc
        x = json.load(open(ev)); x["coverage"]["stage"] = " ".join([crate] + args); done.append(x)
    if len(done) > 1:
        # one evidence file for all stages
        m = dict(done[0]); cov = dict(done[0]["coverage"])
        cov["evaluations"] = sum(d["coverage"]["evaluations"] for d in done)
        cov["distinct_nontrivial"] = sum(d["coverage"]["distinct_nontrivial"] for d in done)
        cov["rule"] = "; ".join(d["coverage"]["rule"] for d in done)
        cov["samples"] = [s for d in done for s in d["coverage"]["samples"]]
        cov["stages"] = [{k: v for k, v in d["coverage"].items() if k not in ("samples",)} for d in done]
        for k in ("observed", "stage", "style"):
            cov.pop(k, None)
        m["coverage"] = cov; m["wall_s"] = sum(d["wall_s"] for d in done)
        m["assumptions"] = [a for d in done for a in d.get("assumptions", [])]
        json.dump(m, open(ev, "w"), indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
