#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and harness/checks.json from tools/spec.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import spec
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(root + "/properties.jsonl", "w") as f:
    for p in spec.PROPS + [dict(n) for n in spec.NA]:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"): anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p.get("observe"): anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks = {}
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in spec.NA],
       "hooks": {"guard": "none", "enable": "no hooks: harnesses enter the packages through a build overlay", "source_commits": []},
       "notes": "Engine in engine/ (symbolic execution of Go SSA with z3, cross-checked by cvc5), harnesses in harness/, bounds in tools/spec.py and DESIGN.md."}
for p in spec.PROPS:
    checks[p["id"]] = {"runs": p["runs"], "bounds": p["bounds"], "outside": p["outside"], "assumptions": p["assumptions"]}
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the Go SSA of the real functions with an SMT solver (z3) deciding every branch and assertion",
        "level": "model_checking",
        "level_note": "Holds for every value within: %s. Outside the claim: %s. Trusts the SSA encoder (sampled paths are replayed on the compiled code), go/ssa and z3 (a part of its verdicts is rechecked by cvc5).%s"
                      % (p["bounds"], p["outside"], "".join(" Assumes: %s." % a for a in p["assumptions"])),
    })
json.dump(checks, open(root + "/harness/checks.json", "w"), indent=1, sort_keys=True)
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(spec.PROPS), "properties")

# DESIGN.md is DESIGN.in.md with the tables filled in
def table():
    out = ["## Properties\n"]
    for p in spec.PROPS:
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("%s\n" % p["statement"])
        out.append("* Quantified over: %s (%s)." % (", ".join(p["over"]), p["quant"]))
        out.append("* Harnesses: %s in `harness/%s/`, executed over %s." % (", ".join(sorted({"`%s`" % r["fn"] for r in p["runs"]})), p["runs"][0]["pkg"], ", ".join("`%s`" % w for _, w in p["mech"])))
        out.append("* Bounds: %s." % p["bounds"])
        out.append("* Outside: %s." % p["outside"])
        for a in p["assumptions"]:
            out.append("* Assumes: %s." % a)
        out.append("* Beyond tests: %s\n" % p["why"])
    return "\n".join(out)

def seeded():
    d = root + "/tools/seeded.md"
    return open(d).read() if os.path.exists(d) else ""

t = open(root + "/tools/DESIGN.in.md").read()
open(root + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", table()).replace("@@SEEDED@@", seeded()))
