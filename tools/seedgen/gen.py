#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from the definitions in bugs.py in a scratch copy of /repo, confirming for each
that it applies, builds, passes the stable tests, and that the demonstration discriminates.
usage: gen.py [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS, DEMO_PRELUDE, RUN_RUST, RUN_CLI
S = "/tmp/seedrepo"
def sh(c, cwd=S, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
if not os.path.exists(S): sh("cp -a /repo " + S, cwd="/tmp")
sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
ENV = dict(os.environ)
base = json.load(open("/opt/vp/BASELINE.json"))
def build():
    r = sh("cargo build --workspace --offline 2>&1 | tail -30"); return "error" not in r.stdout or "Finished" in r.stdout, r.stdout
def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --include-ignored --test-threads 8 2>&1")
    return re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M), r.stdout
want = sys.argv[1:]
ok = True
for b in BUGS:
    if want and b["id"] not in want: continue
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .")
    if b.get("rust"):
        open(d + "/demo.rs", "w").write(DEMO_PRELUDE + b["rust"]); open(d + "/demo.sh", "w").write(RUN_RUST)
    else:
        open(d + "/demo.sh", "w").write(RUN_CLI + b["sh"])
    okb, out = build()
    r0 = sh(f"bash {d}/demo.sh")
    for f, old, new in b["edits"]:
        p = f"{S}/{f}"; t = open(p).read()
        n = t.count(old)
        if isinstance(b.get("nth"), int): 
            parts = t.split(old); i = b["nth"]; t = old.join(parts[:i+1]) + new + old.join(parts[i+1:])
        else:
            assert n == 1, (b["id"], f, n, old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = sh("git diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    okb2, out2 = build()
    failed, tout = tests()
    r1 = sh(f"bash {d}/demo.sh")
    good = r0.returncode == 0 and okb2 and not failed and r1.returncode != 0
    ok &= good
    print(b["id"], "OK" if good else "BAD", "clean-demo", r0.returncode, "build", okb2, "failed-tests", failed, "demo", r1.returncode, flush=True)
    if not good:
        if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
        if not okb2: print(out2[-1500:])
        print(r1.stdout[-300:], r1.stderr[-300:])
    sh("git checkout -q -- .")
sys.exit(0 if ok else 1)
