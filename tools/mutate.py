#!/usr/bin/env python3
"""Mutation testing of the monitors: which small changes of /repo that its tests accept do the checks accept too?

    mutate.py list FILE...                 the mutants
    mutate.py run [-j N] [-s STRIDE] OUT FILE...   try them; one line of OUT each
    mutate.py plant [-j N] OUT SPEC.py   try the PLANTS of SPEC.py: (name, checks, [(file, old, new)...])

Works on copies of /repo and /verif under /tmp/mut; what it finds only guides where to strengthen the checks."""
import json, os, re, shutil, subprocess, sys, threading, queue
VERIF = "/verif"
CHECK = {  # file: checks, in the order most likely to notice
    "bfffs-core/src/raid/codec.rs": ["C02", "C01", "C03"], "bfffs-isa-l/src/lib.rs": ["C02", "C01", "C03"],
    "bfffs-core/src/raid/prime_s.rs": ["C04", "C05"], "bfffs-core/src/raid/declust.rs": ["C04", "C05"],
    "bfffs-core/src/raid/sgcursor.rs": ["C06", "C02"], "bfffs-core/src/util.rs": ["C07"],
    "bfffs-core/src/property.rs": ["C12"], "bfffs-core/src/types.rs": ["C13"],
    "bfffs-core/src/cache/lru.rs": ["C08", "C09"], "bfffs-core/src/cache/mod.rs": ["C08", "C09"],
    "bfffs-core/src/writeback/writeback.rs": ["C11", "C10", "C15"], "bfffs-core/src/writeback/mod.rs": ["C11", "C10", "C15"],
    "bfffs/src/pool_create_parser.lalrpop": ["C14"], "bfffs/src/bin/bfffs/pool_create_ast.rs": ["C14"],
}
FULL = ["C16", "C17", "C18", "C19", "C20"]
SWAP = [(r"(?<![-+=<>*/&|!.'\w\"(]) ?\+ (?!=)", " - "), (r" - (?!>)", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
        (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+= ", " -= "), (r" -= ", " += "),
        (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="), (r"\.rev\(\)", ""),
        (r"div_ceil\(", "div_euclid("), (r"checked_sub\(", "checked_add("), (r"saturating_sub\(", "wrapping_sub("), (r"\bif (?!let)", "if !("),
        (r" as u64", " as u16 as u64"), (r" as usize", " as u8 as usize"), (r" as u32", " as u16 as u32"), (r"\.is_some\(\)", ".is_none()"),
        (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() == 1"), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" << ", " >> "), (r" >> ", " << "),
        (r"\bfirst\(\)", "last()"), (r"\bmru\b", "lru"), (r"\blru\b", "mru"), (r"\bIncluded\b", "Excluded"), (r"\bExcluded\b", "Included"), (r"\bNone\b", "Some(Default::default())"),
        (r"push_back\(", "push_front("), (r"pop_front\(", "pop_back("), (r"\bOk\(", "Err("), (r"Ordering::\w+", "Ordering::Relaxed")]
NUM = re.compile(r"(?<![\w.#\"'])(\d+)(?![\w.\"'])")


def mutants(path):
    src = open(os.path.join("/repo", path)).read().split("\n")
    out, depth = [], None
    for i, l in enumerate(src):
        s = l.strip()
        if re.search(r"LCOV_EXCL_START|#\[cfg\(test\)\]|^mod t\b", s):
            if "LCOV" in l or i + 1 < len(src) and re.match(r"(pub )?mod \w+ \{", src[i + 1]):
                break
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "extern", "assert", "debug_assert", "mod ", "pub mod")) or "assert" in s:
            continue
        code = l.split("//")[0]
        for pat, rep in SWAP:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                if rep == "if !(":
                    if not new.rstrip().endswith("{"):
                        continue
                    new = new.rstrip()[:-1] + ") {"
                out.append((i, new))
        for m in NUM.finditer(code):
            n = int(m.group(1))
            for k in {n + 1, n - 1} - {-1}:
                out.append((i, code[:m.start()] + str(k) + code[m.end():]))
        if re.match(r"[\w:.]+(\(.*\)|\[.*\])?[^=]*;$", s) and not re.match(r"(let|return|pub|const|type|static|break|continue|fn|mod)\b", s) or re.match(r"[\w.*\[\]]+ [-+*|&]?= .*;$", s):
            out.append((i, re.sub(r"\S.*", "();", l)))
    seen, r = set(), []
    for i, n in out:
        if n != src[i] and (i, n) not in seen:
            seen.add((i, n)); r.append((i, n))
    return src, r


def worker(k, q, out, lock):
    base = "/tmp/mut/%d" % k
    repo, ver, ws = base + "/repo", base + "/verif", base + "/ws"
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    os.makedirs(ver)
    for d in ("mon", "shims", "core", "light", "parser", "perturb", "wbsim", "full", "known-findings.txt", "run.py", "memcheck.supp"):
        if os.path.exists(VERIF + "/" + d):
            subprocess.run(["cp", "-a", VERIF + "/" + d, ver], check=True)
    for d, _, fs in os.walk(ver):
        for f in fs:
            if f.endswith((".rs", ".toml", ".py", ".lock")):
                p = d + "/" + f; t = open(p, errors="surrogateescape").read(); u = t.replace("/repo/", repo + "/").replace("/verif/", ver + "/").replace('"/repo"', '"%s"' % repo)
                if u != t:
                    open(p, "w", errors="surrogateescape").write(u)
    os.makedirs(ws); os.makedirs(base + "/target"); os.symlink(base + "/target", ver + "/target")
    t = open(ver + "/run.py").read().replace("/opt/vp/ws", ws); open(ver + "/run.py", "w").write(t)
    for f in ("Cargo.lock", "gen.py", "env.sh"):
        t = open("/opt/vp/ws/" + f).read().replace("/opt/vp/ws", ws).replace('REPO = "/repo"', 'REPO = "%s"' % repo)
        open(ws + "/" + f, "w").write(t)
    def sh(cmd, t=900, **e):
        env = dict(os.environ, VERIF_ROOT=ver, VERIF_SEED="1", VERIF_TIER="quick", **e)
        p = subprocess.Popen(["bash", "-c", cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            o, _ = p.communicate(timeout=t); return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate(); return 124, ""
    pre = ". %s/env.sh; " % ws
    def stable():
        rc, o = sh(pre + "python3 %s/gen.py && cd $WS && cargo test --workspace --no-fail-fast --offline -- --test-threads 4" % ws, 300)
        ok = set(re.findall(r"^test (\S+) .*\.\.\. ok$", o, re.M))
        return rc, ok, o
    _, ref, o = stable()
    assert len(ref) > 50, o[-2000:]
    if not CORE_ONLY:
        tgt = "export CARGO_TARGET_DIR=%s/target CARGO_INCREMENTAL=0; " % base
    while True:
        try:
            path, i, new, src, full = q.get_nowait()
        except queue.Empty:
            break
        if path is None:
            old, new, edits = i, "", new
        else:
            m = list(src); old = m[i]; m[i] = new
            edits = [(path, src[i], "\n".join(m))]
        subset = False
        try:
            for f, a, b in edits:
                p = repo + "/" + f; subset |= f in CHECK
                if path is None: t = open(p).read(); assert t.count(a) == 1, (i, f, t.count(a), a); b = t.replace(a, b)
                open(p, "w").write(b)
        except AssertionError as e:
            with lock: print("bad plant", e, flush=True)
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."]); continue
        res = None
        if subset:
            _, ok, o = stable()
            if "error: could not compile" in o or "error[" in o: res = "nocompile"
            elif not ref <= ok: res = "tests"
        if res is None:
            checks = CHECK.get(path, []) if not full else full
            res = "SURVIVED"
            for c in checks:
                for crate, args in RUN[c]:
                    if crate == "memcheck":
                        rc, o = sh("python3 %s/run.py %s" % (ver, c), 900)
                        if rc: res = "%s rc=%d %s" % (c, rc, [x for x in o.splitlines() if "violated" in x or "panic" in x][:1]); break
                        continue
                    crate, _, feature = crate.partition("+")
                    rc, o = sh(pre + tgt + "cd %s/%s && cargo build --offline --locked --quiet%s" % (ver, crate, feature and " --features " + feature), 600)
                    if rc: res = "nobuild"; break
                    rc, o = sh(pre + tgt + "cd %s && %s/target/debug/%s %s" % (ver, base, crate, " ".join(args)), 300)
                    if rc: res = "%s rc=%d %s" % (c, rc, [x for x in o.splitlines() if "violated" in x or "panic" in x][:1]); break
                if res != "SURVIVED": break
        with lock:
            out.write(json.dumps([path, i if path is None else i + 1, old.strip(), new.strip(), res[:200]]) + "\n"); out.flush()
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])


CORE_ONLY = False
sys.path.insert(0, VERIF)
import importlib.util
sp = importlib.util.spec_from_file_location("run", VERIF + "/run.py"); run = importlib.util.module_from_spec(sp); sp.loader.exec_module(run)
RUN = run.CHECKS
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        for f in a[1:]:
            src, ms = mutants(f)
            print(f, len(ms))
            if len(a) == 2:
                for i, n in ms: print(i + 1, src[i].strip(), "=>", n.strip())
        sys.exit()
    cmd = a[0]; a = a[1:]; j, st, full = 4, 1, None
    while a[0].startswith("-"):
        if a[0] == "-j": j = int(a[1])
        if a[0] == "-s": st = int(a[1])
        if a[0] == "-f": full = a[1].split(",")
        a = a[2:]
    q = queue.Queue()
    if cmd == "plant":
        g = {}; exec(open(a[1]).read(), g); a = a[:1]
        for n, checks, edits in g["PLANTS"]: q.put((None, n, edits, None, checks))
    for f in a[1:]:
        src, ms = mutants(f)
        for i, n in ms[::st]: q.put((f, i, n, src, full))
    print(q.qsize(), "mutants", flush=True)
    out = open(a[0], "w"); lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]
