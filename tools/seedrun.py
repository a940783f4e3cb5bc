#!/usr/bin/env python3
"""seedrun.py [ID..]: runs the quick check of the property of every planted bug against a copy of /repo with the bug
(and, with ALL=1, all the checks). Writes tools/seeded.json. Development tool."""
import os, sys, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", VERIF_SEED="1")
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
def one(i):
    w = "/tmp/seedrun/" + i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    subprocess.check_call(["git", "apply", "/verif/seeded/%s/patch.diff" % i], cwd=w + "/repo")
    prop = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    props = [prop]
    if os.environ.get("ALL"):
        props += [json.loads(l)["id"] for l in open("/verif/properties.jsonl") if json.loads(l)["id"] != prop]
    res = {}
    for p in props:
        r = subprocess.run(["/verif/bin/vx", "check", "-prop", p, "-j", "2", "-repo", w + "/repo", "-out", w], cwd="/verif", env=env, capture_output=True, text=True)
        res[p] = (r.returncode, ([l.strip() for l in r.stdout.splitlines() if l.startswith("  Verif")] + [r.stdout[-200:] if r.returncode != 0 else ""])[0][:160])
    shutil.rmtree(w)
    print(i, prop, "CAUGHT" if res[prop][0] == 1 else "MISSED rc=%d" % res[prop][0], res[prop][1], flush=True)
    return i, prop, res
f = "/verif/tools/seeded.json"
old = json.load(open(f)) if os.path.exists(f) else {}
with ThreadPoolExecutor(4) as ex:
    for i, prop, res in ex.map(one, ids):
        old[i] = {"property": prop, "caught": sorted(p for p in res if res[p][0] == 1), "by": res[prop][1]}
json.dump({k: old[k] for k in sorted(old) if os.path.isdir("/verif/seeded/" + k)}, open(f, "w"), indent=1)
