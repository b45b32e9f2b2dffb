#!/usr/bin/env python3
"""Runs every check on behaviour-preserving edits: usage quiet.py SPEC.py [names]; SPEC defines MUTS as for mut.py.
Prints each edit with the checks that raise an alarm on it."""
import sys, json, subprocess, shutil, tempfile, os, concurrent.futures as cf
E="competition_engine.go"; I="competition_engine_internal.go"; R="regulator.go"; G="competition.go"; K="rank.go"; B="blind/blind.go"; BS="blind/state.go"; M="manager.go"; N="native_table_manager_backend.go"
exec(open(sys.argv[1]).read(), globals())
sel = sys.argv[2:]
VP = os.environ.get("VP_BIN", "/tmp/vp")
PROPS = os.environ.get("PROPS", "").split() or [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")))["checks"]]
pool = cf.ThreadPoolExecutor(int(os.environ.get("J", "7")))
def check(r, p):
    c = subprocess.run(f". /opt/vp/env.sh; timeout 900 {VP} -repo {r} -prop {p}", shell=True, capture_output=True, text=True)
    return c.returncode, [l for l in c.stdout.strip().splitlines() if not l.startswith(("OK", "VIOLATION"))], c.stderr[-300:]
def one(m):
    name, _, _, edits = m
    w = tempfile.mkdtemp(prefix="quiet-"); r = w + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r])
        for f, o, n in edits:
            t = open(f"{r}/{f}").read()
            if t.count(o) != 1: return f"{name}: EDIT MISMATCH {f} {t.count(o)}: {o[:60]!r}"
            open(f"{r}/{f}", "w").write(t.replace(o, n))
        b = subprocess.run(". /opt/vp/env.sh; go build ./...", shell=True, cwd=r, capture_output=True, text=True)
        if b.returncode: return f"{name}: NO BUILD {b.stderr[:400]}"
        res = [(p, *f.result()) for p, f in [(p, pool.submit(check, r, p)) for p in PROPS]]
        bad = [x for x in res if x[1] != 0]
        return f"{name}: " + ("quiet" if not bad else "ALARM\n     " + "\n     ".join(x[:260] for p, rc, l, e in bad for x in (l[:4] or [f"{p} rc={rc} {e}"])))
    finally: shutil.rmtree(w)
todo = [m for m in MUTS if not sel or m[0] in sel]
# BATCH=n applies up to n edits that do not overlap to one tree
n = int(os.environ.get("BATCH", "1"))
while n > 1 and todo:
    files, take, rest = {}, [], []
    for m in todo:
        t = dict(files); ok = len(take) < n
        for f, o, x in m[3]:
            if f not in t: t[f] = open(f"/repo/{f}").read()
            ok = ok and t[f].count(o) == 1
            t[f] = t[f].replace(o, x)
        if ok: files = t; take.append(m)
        else: rest.append(m)
    if not take: print("EDIT MISMATCH", [m[0] for m in rest]); break
    todo = rest
    print(one(("+".join(m[0] for m in take), None, None, [e for m in take for e in m[3]])), flush=True)
if n == 1:
    for m in todo: print(one(m), flush=True)
