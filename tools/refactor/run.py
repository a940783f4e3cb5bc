#!/usr/bin/env python3
"""run.py [ID..]: applies each behaviour-preserving rewrite to a scratch copy and runs the related checks on it. Development tool.
ALL=1 runs all checks."""
import os, sys, subprocess, shutil, re, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from variants import V
env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly")
def apply(s, old, new):
    if old.startswith("func:"):
        a = s.find("\n" + old[5:]) + 1
        assert a > 0, old
        b = s.index("\n}\n", a) + 2
        return s[:a] + new + s[b:]
    assert s.count(old) == 1, (s.count(old), old)
    return s.replace(old, new)
bad = 0
for id, checks, edits in V:
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    W = "/tmp/refactor-" + id
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for f, old, new in edits:
        s = open(W + "/" + f).read()
        open(W + "/" + f, "w").write(apply(s, old, new))
    r = subprocess.run("go vet ./... 2>&1 | grep -v '^#'; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v -e 'no test files' -e ^ok", shell=True, cwd=W, env=env, capture_output=True, text=True)
    if r.stdout.strip() or r.stderr.strip(): print(id, "BUILD/TEST:", r.stdout[-600:], r.stderr[-600:])
    if os.environ.get("ALL"):
        checks = ["C%02d" % i for i in range(1, 50)]
    out = []
    for c in checks:
        p = subprocess.run(["/verif/bin/vx", "check", "-prop", c, "-tier", "quick", "-repo", W, "-out", "/tmp/refactor-out"], env=dict(env, VERIF_SEED="1"), capture_output=True, text=True)
        m = re.search(r"wall=([0-9.]+)", p.stdout)
        out.append("%s:%s%s" % (c, p.returncode, "" if not m else "(%ss)" % m.group(1)))
        if p.returncode:
            bad += 1
            print("  ", id, c, "rc=%d" % p.returncode, (p.stdout + p.stderr)[:1500])
    print(id, " ".join(out), flush=True)
    shutil.rmtree(W, ignore_errors=True)
print("not quiet:", bad)
