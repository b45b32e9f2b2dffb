#!/usr/bin/env python3
"""Plants a bug: builds seeded/<id>/ from a spec and confirms it in a scratch copy.
usage: mkseed.py SPEC.py [--nostable]   (SPEC defines S = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)])"""
import sys, os, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the property's scenario behaves, nonzero when it is broken
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
r=$(pwd)
pkg=PKG
echo "{\\"Replace\\":{HARNESS\\"$r/PKGDIRzz_seed_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -run '^TestSeed' -overlay "$t/o.json" "$pkg"
'''
def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
spec = {}
exec(open(sys.argv[1]).read(), spec)
bad = 0
for s in spec["S"]:
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(w, "repo")
    sh(f"cp -a /repo {repo}")
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "edit does not match once:", f, t.count(old)); ok = False; continue
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=repo).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    pkg = s.get("pkg", ".")
    dm = DEMO_SH.replace("PKGDIR", "" if pkg == "." else pkg[2:] + "/").replace("PKG", pkg)
    if s.get("harness", pkg == "."):
        dm = dm.replace("HARNESS", '\\"$r/zz_harness_test.go\\":\\"$d/harness_test.go\\",')
        shutil.copy(os.path.join(V, "demos", "harness_test.go"), d)
    else:
        dm = dm.replace("HARNESS", "")
    open(os.path.join(d, "demo.sh"), "w").write(dm)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    if ok:
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode != 0:
            print(s["id"], "demo FAILS on unchanged tree\n", r.stdout[-3000:], r.stderr[-2000:]); ok = False
        b = sh(". /opt/vp/env.sh; go build ./... && go vet . >/dev/null 2>&1; go build ./...", cwd=repo)
        if b.returncode != 0:
            print(s["id"], "does not build\n", b.stderr[-2000:]); ok = False
        r = sh(f"bash {d}/demo.sh", cwd=repo)
        if r.returncode == 0:
            print(s["id"], "demo PASSES on the changed tree"); ok = False
        elif "FAIL" not in r.stdout:
            print(s["id"], "demo broken?", r.stdout[-500:], r.stderr[-1500:]); ok = False
        if "--nostable" not in sys.argv and ok:
            r = sh(". /opt/vp/env.sh; go test -vet=off -count=1 -run '^(TestActor_CT_Breaking|TestActor_CT_Normal|Test_Blind_.*)$' ./actor ./blind 2>&1 | tail -30", cwd=repo, timeout=900)
            if "FAIL" in r.stdout:
                print(s["id"], "existing tests fail\n", r.stdout[-1500:]); ok = False
        c = sh(f"VP_REPO={repo} VP_EVIDENCE=/tmp/ev.{os.getpid()} {V}/check.sh {s['property']}")
        print(s["id"], s["property"], "OK" if ok else "BAD", "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "MISSED rc=%d" % c.returncode)
        if c.returncode == 1: print("   ", c.stdout.splitlines()[0][:220])
    bad += not ok
    shutil.rmtree(w)
sys.exit(bad > 0)
