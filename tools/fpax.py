#!/usr/bin/env python3
"""contracts/fp.ax -> contracts/fp.vti (axioms) and bit-precise SMT queries.   fpax.py gen | fpax.py check [OUT.json]"""
import json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(t):
    tok = re.findall(r"[()]|[^\s()]+", t); pos = 0
    def go():
        nonlocal pos
        x = tok[pos]; pos += 1
        if x != "(": return x
        r = []
        while tok[pos] != ")": r.append(go())
        pos += 1
        return r
    e = go(); assert pos == len(tok), t
    return e
def rows():
    for l in open(os.path.join(V, "contracts/fp.ax")):
        l = l.strip()
        if l and not l.startswith(";"):
            n, vs, f = [x.strip() for x in l.split("|")]
            yield n, vs.split(), parse(f)
BOOL = {"nan", "fin", "lt", "eq", "le", "and", "or", "not", "=>"}
def verus(e):
    if isinstance(e, str): return e + "f32" if re.match(r"[0-9]", e) else e
    o, a = e[0], [verus(x) for x in e[1:]]
    if o == "and": return "(" + " && ".join(a) + ")"
    if o == "or": return "(" + " || ".join(a) + ")"
    if o == "not": return "!" + a[0]
    if o == "=>": return "(%s ==> %s)" % (a[0], a[1])
    if o == "=": return "(%s == %s)" % (a[0], a[1])
    if o == "le": return "f_le(%s, %s)" % (a[0], a[1])
    return "f_%s(%s)" % (o, ", ".join(a))
def smt(e):
    if isinstance(e, str): return "((_ to_fp 8 24) RNE %s)" % e if re.match(r"[0-9]", e) else e
    o, a = e[0], " ".join(smt(x) for x in e[1:])
    m = {"lt": "fp.lt", "eq": "fp.eq", "le": "fp.leq", "add": "fp.add RNE", "sub": "fp.sub RNE", "mul": "fp.mul RNE", "div": "fp.div RNE", "neg": "fp.neg", "abs": "fp.abs", "nan": "fp.isNaN", "sqrt": "fp.sqrt RNE"}
    if o == "fin": return "(and (not (fp.isNaN %s)) (not (fp.isInfinite %s)))" % (a, a)
    return "(%s %s)" % (m.get(o, o), a)
def query(n, vs, f):
    return "(set-logic QF_FP)\n" + "".join("(declare-const %s Float32)\n" % v for v in vs) + "(assert (not %s))\n(check-sat)\n" % smt(f)
def gen():
    o = "// generated by tools/fpax.py from contracts/fp.ax: each axiom is a bit-precise fact of IEEE single precision, discharged by z3 or cvc5 on every run\n"
    o += "pub uninterp spec fn f_nan(a: f32) -> bool;\npub uninterp spec fn f_fin(a: f32) -> bool;\npub uninterp spec fn f_abs(a: f32) -> f32;\n"
    o += "pub open spec fn f_le(a: f32, b: f32) -> bool { f_lt(a, b) || f_eq(a, b) }\n"
    for n, vs, f in rows():
        o += "pub axiom fn %s(%s) ensures %s;\n" % (n, ", ".join(v + ": f32" for v in vs), verus(f))
    return o
def decide(r):
    n, vs, f = r; t = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as h:
        h.write(query(n, vs, f)); h.flush()
        for cmd in (["cvc5", "--tlimit=60000", h.name], ["z3", "-T:100", h.name]):
            try: out = subprocess.run(cmd, capture_output=True, text=True, timeout=150).stdout.split("\n")[0].strip()
            except Exception as x: out = str(x)
            if out in ("unsat", "sat"): break
    return {"name": n, "result": out, "by": cmd[0], "s": round(time.time() - t, 2)}
def check():
    with ThreadPoolExecutor(4) as ex: return list(ex.map(decide, list(rows())))
if __name__ == "__main__":
    p = os.path.join(V, "contracts/fp.vti")
    if sys.argv[1] == "gen": open(p, "w").write(gen())
    else:
        r = check(); bad = [x for x in r if x["result"] != "unsat"]
        for x in r: print(x)
        if open(p).read() != gen(): print("fp.vti is not what fp.ax says"); sys.exit(1)
        sys.exit(1 if bad else 0)
