#!/usr/bin/env python3
"""seedmk.py [ID..]: (re)builds /verif/seeded from tools/seedsrc/bugs.py, verifying every planted bug in a scratch copy:
applies, changes original lines, builds, passes the tests, demo passes without and fails with it. Development tool."""
import os, sys, subprocess, shutil, json, re
sys.path.insert(0, "/verif/tools/seedsrc")
import bugs
W = "/tmp/seedmk"
env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly")
def sh(cmd, cwd, t=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
DEMO = '''#!/bin/bash
# Runs %(test)s, which drives the public behaviour concerned, as an in-package test of %(pkg)s.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<END
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
END
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
sed -i "s#$here/demo_test.go.txt#$tmp/zz_demo_test.go#" "$tmp/overlay.json"
timeout 200 go test -vet=off -count=1 -timeout 150s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
ok = True
for b in bugs.BUGS:
    if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]: continue
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        s = open(W + "/" + f).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times:", old); ok = False; break
        open(W + "/" + f, "w").write(s.replace(old, new))
    else:
        sh("gofmt -l net > /tmp/seedmk.fmt", W)
        _, diff = sh("git diff", W)
        # every removed line must be original
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = 0
        for f in set(e[0] for e in b["edits"]):
            _, bl = sh(["git", "blame", "-s", f], "/repo")
            blame = {}
            for l in bl.splitlines():
                h, rest = l.split(" ", 1)
                blame.setdefault(rest.split(") ", 1)[1] if ") " in rest else "", set()).add(h.startswith("^"))
            for r in removed:
                if True in blame.get(r, ()): orig += 1
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % dict(test="demo_test.go.txt", pkg=b["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rb, ob = sh("go build ./... && git diff --stat | tail -1", W)
        rt, ot = sh("timeout 100 go test -vet=off -count=1 ./...", W)
        rp, op = sh(["bash", d + "/demo.sh"], W)
        sh("git checkout -- .", W)
        rc, oc = sh(["bash", d + "/demo.sh"], W)
        good = rb == 0 and rt == 0 and rp not in (0, 124) and rc == 0 and orig > 0
        ok &= good
        print(b["id"], "ok" if good else "BAD", "build=%d test=%d clean=%d patched=%d original-lines=%d/%d" % (rb, rt, rc, rp, orig, len(removed)))
        if not good: print((ob if rb else "") + (ot if rt else "") + (oc if rc else "") + (op[-400:]))
        else: print("    ", [l.strip() for l in op.splitlines() if "_test.go" in l or "panic:" in l or "DATA RACE" in l][:1])
shutil.rmtree(W, ignore_errors=True)
sys.exit(not ok)
