#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py -- SPEC defines id, property, edits=[(file, old, new)], needs, breaks, demo (Go test body).
Confirms in a scratch copy of /repo that it changes original lines, builds, passes the stable tests, and that the demo
fails with it and passes without; writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = open(os.path.join(here, "tools", "demo_help.go.txt")).read()
DEMO = '''#!/bin/bash
# exit 0: the property holds here, nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go test -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 60s .
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    i = ns["id"]
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp") + "/repo"
    try:
        shutil.copytree("/repo", w, symlinks=True)
        sh("git checkout -- . && git clean -fdq", w)
        for f, old, new in ns["edits"]:
            s = open(f"{w}/{f}").read()
            assert s.count(old) == 1, (i, f, "occurs", s.count(old))
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        d = sh("git diff", w).stdout
        # the removed lines have to be original
        orig = False
        cur = None
        ln = 0
        for l in d.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                b = sh(f"git blame -s -L{ln},{ln} HEAD -- {cur}", w).stdout
                if b.startswith("^"): orig = True
                else: print(i, "NOT ORIGINAL:", b.strip())
                ln += 1
            elif l.startswith(" "): ln += 1
        if not orig: print(i, "NO ORIGINAL LINE CHANGED"); continue
        g = "GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local "
        r = sh(g + "go build . ./runes && " + g + "go test -count=1 . ./runes 2>&1", w)
        if r.returncode: print(i, "TESTS FAIL", r.stdout[-1500:], r.stderr[-1500:]); continue
        o = f"{here}/seeded/{i}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(d)
        open(o + "/demo.sh", "w").write(DEMO); os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo_test.go.txt", "w").write(HELP + ns["demo"])
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        bad = [sh(o + "/demo.sh", w, timeout=300) for _ in range(2)]
        sh("git checkout -- .", w)
        good = [sh(o + "/demo.sh", w, timeout=300) for _ in range(3)]
        ok = all(b.returncode for b in bad) and not any(x.returncode for x in good)
        why = [l for l in bad[0].stdout.splitlines() if "demo_test" in l or "panic" in l][:2]
        print(i, "OK" if ok else "BAD", [b.returncode for b in bad], [x.returncode for x in good], why)
        if not ok: print(bad[0].stdout[-1500:], bad[0].stderr[-800:], "-----", good[0].stdout[-1500:], good[0].stderr[-800:]); shutil.rmtree(o)
    finally:
        shutil.rmtree(os.path.dirname(w))
