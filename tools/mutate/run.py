#!/usr/bin/env python3
"""run.py FILE:CHECK,CHECK.. ...: mutates files of a copy of /repo and reports the mutants that build and pass the tests but no
check notices. Development tool; works in /tmp/mut."""
import os, shutil, subprocess, sys, json, random
from concurrent.futures import ThreadPoolExecutor
import queue
env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="", VERIF_SEED="1")
os.makedirs("/tmp/mut", exist_ok=True)
subprocess.check_call(["go", "build", "-o", "/tmp/mut/mutate", "/verif/tools/mutate/main.go"], env=env)
W = int(os.environ.get("W", "8"))
S = float(os.environ.get("SAMPLE", "1"))
FN = os.environ.get("FN")
dirs = queue.Queue()
for i in range(W):
    d = "/tmp/mut/w%d" % i
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    dirs.put(d)
out = open(os.environ.get("OUT", "/tmp/mut/report.txt"), "a")
def sh(cmd, cwd, t):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def one(job):
    f, line, checks = job
    n, ln, fn, desc = line.split("\t")
    d = dirs.get()
    repo = d + "/repo"
    try:
        subprocess.check_call(["/tmp/mut/mutate", "/repo/" + f, n, repo + "/" + f])
        rc, o = sh(["go", "vet", "-all=false", "./" + os.path.dirname(f)], repo, 120)
        rc, o = sh(["go", "build", "./..."], repo, 120)
        if rc: return
        rc, o = sh(["timeout", "20", "go", "test", "./net/..."], repo, 120)
        if rc:
            res = "tests"
        else:
            res = "SURVIVED"
            for c in checks:
                rc, o = sh(["/verif/bin/vx", "check", "-prop", c, "-j", "1", "-repo", repo, "-out", d], "/verif", 600)
                if rc == 1:
                    res = "caught " + c + " " + [l for l in o.splitlines() if l.startswith("  Verif")][0][:90]
                    break
                if rc != 0:
                    res += " %s=rc%d" % (c, rc) + " " + o[-300:].replace("\n", "|")
                elif "note:" in o:
                    res += " %s=note" % c
        out.write("%s:%s %s [%s] %s: %s\n" % (f, ln, fn, desc, n, res)); out.flush()
    finally:
        shutil.copy("/repo/" + f, repo + "/" + f)
        dirs.put(d)
jobs = []
random.seed(int(os.environ.get("SEED", "1")))
for a in sys.argv[1:]:
    f, checks = a.split(":")
    for line in subprocess.check_output(["/tmp/mut/mutate", "/repo/" + f], text=True).splitlines():
        if FN and line.split("\t")[2] not in FN.split(","): continue
        if random.random() < S: jobs.append((f, line, checks.split(",")))
random.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
with ThreadPoolExecutor(W) as ex: list(ex.map(one, jobs))
for i in range(W): shutil.rmtree("/tmp/mut/w%d" % i)
