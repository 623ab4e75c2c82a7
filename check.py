#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property on /repo's current working tree.
Layers: V (Verus over mechanically extracted source), K (Kani on the real crate), B (bounded conformance/replay)."""
import json, os, re, subprocess, sys, time, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T = os.path.join(V, "target")
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from checks import PROPS

OBLIGATION = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|"
    r"invariant not satisfied.*|possible arithmetic underflow/overflow|possible division by zero|possible bit shift.*|"
    r"decreases not satisfied.*|unable to prove.*|.*might not.*|loop invariant.*|assert_by.*|assertion.*|.*not satisfied.*|"
    r".*cannot prove.*|.*possibly.*overflow.*|.*could not be.*proved.*|.*panic.*|unreachable.*)")

def sh(cmd, timeout, cwd=None, env=None, mem_gb=None):
    def lim():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=e, preexec_fn=lim, errors="replace")
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: p.kill()
        o, er = p.communicate()
        return None, o, er, time.time() - t

def build_extract():
    rc, o, e, _ = sh(["cargo", "build", "--offline", "-q"], 300, cwd=os.path.join(V, "extract"))
    return rc == 0, e

def toolcache(*names):
    return None

def scan_trusted(text):
    """mechanical scan of the verified text for everything assumed rather than proved"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if re.search(r"external_body|external_fn_specification|external_type_specification|verifier::external", l):
            for m in lines[i:i+4]:
                g = re.search(r"\b(fn|struct|trait)\s+(\w+)", m)
                if g:
                    out.append("trusted %s %s" % (g.group(1), g.group(2))); break
        g = re.search(r"assume_specification\s*(?:<.*?>)?\s*\[\s*(.*?)\s*\]", l)
        if g: out.append("assumed specification of " + g.group(1))
        g = re.search(r"\baxiom fn (\w+)", l)
        if g: out.append("axiom " + g.group(1))
        if re.search(r"\b(assume|admit)\s*\(", l): out.append("assume at line: " + l.strip()[:100])
        if "uninterp spec fn" in l:
            g = re.search(r"uninterp spec fn (\w+)", l)
            if g: out.append("uninterpreted " + g.group(1))
    return sorted(set(out))

def contracted(text):
    pass

def parse_errors(stderr, regions, gen):
    errs, other = [], []
    blocks = re.split(r"\n(?=error|warning|note)", "\n" + stderr)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"): continue
        first = b.split("\n")[0]
        if first.startswith("error: aborting") or "could not compile" in first: continue
        m = re.search(r"--> .*?:(\d+):(\d+)", b)
        line = int(m.group(1)) if m else 0
        fn = None
        cand = [line]
        if "postcondition" in first:  # the primary span may be a trait's clause: the body is the other one
            cand = [int(x) for x in re.findall(r"^ *(\d+) +\|", b, re.M) if int(x) != line][::-1] + [line]
        for c in cand:
            if fn is None:
                for r in regions:
                    if r["start"] <= c <= r["end"]: fn = r["fn"]
        if fn is None and line:
            for i in range(min(line, len(gen)) - 1, -1, -1):
                g = re.search(r"\bfn\s+(\w+)", gen[i])
                if g: fn = "lemma/spec " + g.group(1); break
        clause = ""
        # the underlined text: the clause, call or assertion that fails
        bl = b.split("\n")
        for x, y in zip(bl, bl[1:]):
            c = re.match(r"^[ 0-9]*\|([ |]*\^+)", y)
            if c and re.match(r"^ *\d+ +\|", x):
                a = y.index("^"); z = a + len(re.match(r"\^+", y[a:]).group(0))
                clause = x[a:z].strip(); break
        if not clause:
            m2 = re.search(r"\|\s*(.*)\n[ 0-9]*\|\s*[\^_-]", b)
            if m2: clause = m2.group(1).strip()
        item = {"fn": fn, "message": first, "line": line, "clause": clause, "text": b[:3000]}
        if re.search(r"rlimit|resource limit|timed? ?out", b, re.I): other.append(item)
        elif OBLIGATION.match(first): errs.append(item)
        else: other.append(item)
    return errs, other

def run_verus(path, rl, extra=()):
    cmd = ["verus", path, "--crate-type=lib", "--rlimit", str(rl), "--multiple-errors", "8", "--output-json", "--time",
           "--triggers-mode", "silent", "--num-threads", "4"] + list(extra)
    rc, o, e, wall = sh(cmd, 400, cwd=T, mem_gb=12)
    try:
        j = json.loads(o[o.index("{"):])
    except Exception:
        j = {}
    return rc, j, e, wall, " ".join(cmd)

def verify_unit(unit):
    d = os.path.join(T, "v"); os.makedirs(d, exist_ok=True)
    r = {"unit": unit, "status": "undecided", "errors": [], "other": [], "verified": 0, "failed": 0, "fns": [], "trusted": [], "rewrites": {}, "smt_ms": 0}
    ex = os.path.join(V, "extract/target/debug/extract")
    gen, gj = f"{d}/{unit}.rs", f"{d}/{unit}.json"
    rc, o, e, _ = sh([ex, REPO, f"{V}/contracts/{unit}.vt", gen, gj], 60)
    if rc != 0:
        r["reason"] = "extraction: " + (e.strip()[-400:] or o[-400:])
        return r
    info = json.load(open(gj)); text = open(gen).read(); lines = text.split("\n")
    r["fns"] = [f'{x["src"]}::{x["fn"]}' for x in info["regions"]]
    for l in info["log"]:
        for k, v in (l.get("rules") or {}).items(): r["rewrites"][k] = r["rewrites"].get(k, 0) + v
    r["substs"] = [s for l in info["log"] for s in (l.get("substs") or [])]
    r["sig_overridden"] = [l["fn"] for l in info["log"] if l.get("sig_overridden")]
    r["trusted"] = scan_trusted(text)
    if "generated by tools/fpax.py" in text:
        # the floating-point facts the unit uses are themselves discharged, bit-precisely
        import fpax
        if open(os.path.join(V, "contracts/fp.vti")).read() != fpax.gen(): r["reason"] = "contracts/fp.vti is not what contracts/fp.ax says"; return r
        r["fp"] = fpax.check()
        bad = [x for x in r["fp"] if x["result"] != "unsat"]
        if bad: r["reason"] = "floating-point facts not discharged: %s" % bad; return r
        r["trusted"] = [x for x in r["trusted"] if not x.startswith("axiom fp_")]
    rc, j, err, wall, cmd = run_verus(gen, 60)
    r["cmd"] = cmd; r["wall"] = wall
    vr = j.get("verification-results", {})
    r["verified"] = vr.get("verified", 0) or 0
    r["failed"] = vr.get("errors", 0) or 0
    tm = j.get("times-ms", {})
    r["smt_ms"] = (tm.get("smt", {}) or {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
    errs, other = parse_errors(err, info["regions"], lines)
    r["errors"], r["other"] = errs, other
    r["stderr"] = err[-6000:]
    if rc == 0 and vr.get("success") and r["failed"] == 0 and r["verified"] > 0:
        r["status"] = "proved"
        # vacuity guard: with assert(false) at the start of every contracted body each one must fail
        rc2, o2, e2, _ = sh([ex, REPO, f"{V}/contracts/{unit}.vt", f"{d}/{unit}_vac.rs", f"{d}/{unit}_vac.json", "--vacuity"], 60)
        if rc2 == 0:
            i2 = json.load(open(f"{d}/{unit}_vac.json")); l2 = open(f"{d}/{unit}_vac.rs").read().split("\n")
            _, j2, e2, _, _ = run_verus(f"{d}/{unit}_vac.rs", 6)
            er2, ot2 = parse_errors(e2, i2["regions"], l2)
            hit = {x["fn"] for x in er2 + ot2}
            want = [x["fn"] for x in i2["regions"] if not any("external_body" in l for l in l2[max(0, x["start"] - 3):x["start"] + 1])]
            r["vacuous"] = [f for f in want if f not in hit]
            if r["vacuous"]:
                r["status"] = "undecided"; r["reason"] = "vacuous preconditions: %s" % r["vacuous"]
    elif errs and not [x for x in other if "rlimit" not in x["message"].lower() and "resource" not in x["message"].lower()]:
        r["status"] = "failed"
    else:
        r["reason"] = "verifier did not decide: " + "; ".join(x["message"] for x in (other or errs))[:600] + ("" if rc is not None else " (timeout)")
    return r

def build_bin(name, cli=False):
    if cli:
        ok, e = build_cli()
        if not ok: return ok, e
    rc, o, e, w = sh(["cargo", "build", "--offline", "-q", "--bin", name], 600, cwd=os.path.join(V, "harness"))
    return rc == 0, e[-3000:]

def build_cli():
    """the reml binary, built from the current tree outside /repo's tracked files"""
    td = os.path.join(T, "cli")
    rc, o, e, w = sh(["cargo", "build", "--offline", "-q", "-p", "reductionml-cli", "--target-dir", td], 600, cwd=REPO)
    os.environ["REML_BIN"] = os.path.join(td, "debug", "reml")
    return rc == 0, e[-3000:]

def run_bin(name, only=None, tier=None, seed=None, budget=None):
    out = os.path.join(T, f"b_{name}.json")
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(V, "harness/target/debug", name), "--seed", str(SEED if seed is None else seed), "--tier", tier or TIER, "--out", out]
    if budget: cmd += ["--budget", str(budget)]
    if only: cmd += ["--only", only]
    rc, o, e, w = sh(cmd, 800 if TIER == "thorough" else 400, cwd=T, mem_gb=20)
    if os.path.exists(out):
        return json.load(open(out))
    # crashed hard: find the case
    rc, o, e, w = sh(cmd, 400, cwd=T, mem_gb=20, env={"TRACE": "1"})
    last = [l for l in e.split("\n") if l.startswith("CASE ")]
    return {"property": name, "seed": SEED, "tier": TIER, "evaluations": len(last), "distinct_nontrivial": len(last), "rule": "crash", "samples": last[-1:], "nfailures": 1,
            "failures": [{"case": last[-1][5:] if last else "?", "input": "(replay the case by its id)", "failure": "the process died (exit %s): %s" % (rc, e[-300:])}]}

def run_kani(harnesses):
    """each harness is a loop-free or operand-width-bounded Kani proof over the real crate"""
    d = os.path.join(V, "kani")
    cmd = ["cargo", "kani", "-j", "4", "--output-format", "terse"]
    for h in harnesses: cmd += ["--harness", h]
    rc, o, e, w = sh(cmd, 500, cwd=d, mem_gb=24)
    res = {}
    txt = o + e
    for m in re.finditer(r"Checking harness ([\w:]+)\.\.\.(.*?)(?=Checking harness|Manual Harness Summary|\Z)", txt, re.S):
        body = m.group(2)
        res[m.group(1)] = "ok" if "VERIFICATION:- SUCCESSFUL" in body else ("failed" if "VERIFICATION:- FAILED" in body else "?")
    if len(res) < len(harnesses):
        # -j output interleaves; fall back on the summary
        m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", txt)
        if m and int(m.group(2)) == 0 and int(m.group(1)) >= len(harnesses):
            res = {h: "ok" for h in harnesses}
    return {"results": res, "rc": rc, "wall": w, "cmd": " ".join(cmd), "tail": txt[-3000:]}

def known_findings(pid):
    p = os.path.join(V, "known-findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=`([^`]*)` (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(T, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    P = PROPS[pid]
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if rp.get("case"):
            ok, e = build_bin(rp["bin"], P.get("cli"))
            if not ok: print("cannot build", e); sys.exit(2)
            r = run_bin(rp["bin"], only=rp["case"], tier=rp["tier"], seed=rp["seed"])
            print(json.dumps(r["failures"], indent=1)); sys.exit(1 if r["nfailures"] else 0)
        print(json.dumps(rp, indent=1)); sys.exit(0)
    units, bin_, kani = P.get("units", []), P.get("bin"), P.get("kani", [])
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build_bin, bin_, P.get("cli")) if bin_ else None
        fk = ex.submit(run_kani, kani) if kani else None
        oke, ee = build_extract() if units else (True, "")
        if oke:
            us = list(ex.map(verify_unit, units))
        else:
            us = [{"unit": u, "status": "undecided", "reason": "extractor build: " + ee[-300:], "errors": [], "verified": 0, "failed": 0, "fns": [], "trusted": [], "rewrites": {}, "smt_ms": 0} for u in units]
        k = fk.result() if fk else None
        b, berr = None, None
        if fb:
            ok, berr = fb.result()
            if ok: b = run_bin(bin_)
    fails = list(b["failures"]) if b else []
    known = known_findings(pid); reported = []; unlisted = []
    for f in fails:
        hit = [d for (m, d) in known if m in (f["case"] + " " + f["input"] + " " + f["failure"])]
        if hit: reported.append((hit[0], f))
        else: unlisted.append(f)
    if b and b["nfailures"] > len(fails) and not unlisted and known:
        pass
    # a unit serves several properties: only the obligations in this property's scope are its violations
    for u in us:
        sc = P.get("scope", {}).get(u["unit"])
        if u["status"] == "failed" and sc is not None:
            mine = [e for e in u["errors"] if any(re.search(a, e["fn"] or "") and (c is None or re.search(c, e["clause"])) for a, c in sc)]
            if not mine:
                u["status"] = "undecided"
                u["reason"] = "obligations outside this property's scope fail: " + "; ".join(sorted({f'{e["fn"]} ({e["message"]})' for e in u["errors"]}))[:250]
            u["outside_scope"] = len(u["errors"]) - len(mine); u["errors"] = mine or u["errors"]
    vfail = [u for u in us if u["status"] == "failed"]
    kfail = [h for h, s in (k["results"].items() if k else []) if s == "failed"]
    # a failed obligation without a failing input: search longer before reporting
    if (vfail or kfail) and b is not None and not fails:
        b2 = run_bin(bin_, tier="thorough", seed=SEED + 1000, budget=200)
        unlisted = [f for f in b2["failures"] if not any(m in (f["case"] + " " + f["input"] + " " + f["failure"]) for m, _ in known)]
        if unlisted: b = dict(b, failures=unlisted, nfailures=len(unlisted), seed=b2["seed"], tier="thorough")
        b["evaluations"] += b2["evaluations"]
    allv = bool(us) and all(u["status"] == "proved" for u in us)
    kok = (not kani) or (k and len(k["results"]) >= len(kani) and all(s == "ok" for s in k["results"].values()))
    proved = allv and kok or (not us and bool(kani) and kok)
    rep = os.path.join(V, "evidence", f"{pid}.replay.json")
    line = None
    if unlisted:
        f = unlisted[0]
        json.dump({"property": pid, "bin": bin_, "seed": b["seed"], "tier": b["tier"], "case": f["case"], "input": f["input"], "failure": f["failure"],
                   "all": unlisted, "failed_obligations": [{"unit": u["unit"], "errors": u["errors"]} for u in vfail],
                   "how": f"python3 check.py {pid} --replay evidence/{pid}.replay.json"}, open(rep, "w"), indent=1)
        line = f"VIOLATION property={pid} replay={rep}"
    elif vfail or kfail:
        json.dump({"property": pid, "failed_obligations": [{"unit": u["unit"], "errors": u["errors"], "stderr": u.get("stderr", "")[-4000:]} for u in vfail],
                   "kani_failed": kfail, "kani_output": (k or {}).get("tail", "") if kfail else ""}, open(rep, "w"), indent=1)
        line = f"VIOLATION property={pid} replay={rep} no-failing-input-found"
    # ---- evidence
    nfp = sum(len(u.get("fp", [])) for u in us)
    ob = sum(u["verified"] + u["failed"] for u in us) + len(kani) + nfp
    di = sum(u["verified"] for u in us) + sum(1 for u in us for x in u.get("fp", []) if x["result"] == "unsat") + (sum(1 for s in k["results"].values() if s == "ok") if k else 0)
    trusted = sorted({f'{u["unit"]}: {x}' for u in us for x in u.get("trusted", [])})
    assumptions = list(P.get("assumptions", []))
    for u in us:
        if u["status"] == "undecided": assumptions.append(f'unit {u["unit"]} NOT decided by the verifier on this tree ({u.get("reason","")[:300]}); its functions are covered by the bounded stand-in only')
        if u.get("sig_overridden"): assumptions.append(f'{u["unit"]}: signature replaced by the extraction for {u["sig_overridden"]}')
    cov = {"obligations": ob, "discharged": di,
           "checker_cmd": "; ".join(u.get("cmd", "") for u in us) + ((" ; " + k["cmd"]) if k else ""),
           "trusted_base": trusted + ["Verus 0.2026.09.13 + Z3 (soundness)", "extraction rewrite rules listed in DESIGN.md"] + (["Kani 0.68 / CBMC"] if kani else []),
           "functions_under_contract": sorted({f for u in us for f in u["fns"]}),
           "units": [{"unit": u["unit"], "status": u["status"], "verified": u["verified"], "failed": u["failed"], "smt_ms": u["smt_ms"], "wall_s": round(u.get("wall", 0), 2),
                      "rewrites": u["rewrites"], "substitutions": u.get("substs", []), "scope": P.get("scope", {}).get(u["unit"]), "vacuous": u.get("vacuous", [])} for u in us],
           "floating_point_facts": sorted({f'{x["name"]} ({x["by"]}, QF_FP)' for u in us for x in u.get("fp", [])}),
           "kani": ({"harnesses": k["results"], "wall_s": round(k["wall"], 1)} if k else None),
           "explanation": "proof obligations are discharged by Verus over source text extracted from /repo on this run; the bounded part is a labelled bounded stand-in/replay and is not counted as proved"}
    if b:
        cov.update({"evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"], "rule": b["rule"], "samples": b["samples"], "bounded": {"groups": b.get("groups"), "wall_s": b.get("wall_s")}})
    elif bin_:
        assumptions.append("bounded conformance harness did not build: " + (berr or "")[-300:])
    level = "proof" if (proved and (us or kani)) else "exploration"
    if P.get("level") == "exploration": level = "exploration"
    if level == "exploration" and not b: level = "other"
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 1), "violations": 1 if line else 0}
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    for d, f in reported:
        print(f"KNOWN-FINDING: property={pid} {d}")
    print(f"{pid}: {di}/{ob} obligations discharged; units " + ", ".join(f'{u["unit"]}={u["status"]}' for u in us) +
          (f'; kani {k["results"]}' if k else "") + (f'; bounded: {b["evaluations"]} cases, {b["nfailures"]} failures' if b else "; bounded: unavailable"))
    for u in us:
        if u["status"] != "proved":
            print(f'  {u["unit"]}: {u["status"]} {u.get("reason","")[:300]}')
            for e in u["errors"][:6]: print(f'    {u["unit"]}::{e["fn"]}: {e["message"]} @ {e["clause"][:140]}')
    if line:
        if unlisted: print("  input: %s\n  failure: %s" % (unlisted[0]["input"][:1500], unlisted[0]["failure"][:1500]))
        print(line); sys.exit(1)
    if b is None and not proved:
        print("neither the verifier nor the bounded harness could decide this tree"); sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
