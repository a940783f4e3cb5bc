#!/usr/bin/env python3
"""seedtab.py: tools/seeded.md from tools/seeded.json and seeded/*/meta.json."""
import json, os
r = json.load(open("/verif/tools/seeded.json"))
out = ["| planted bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % i))
    c = r.get(i, {}).get("caught", [])
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], ", ".join(c) if c else "missed so far"))
open("/verif/tools/seeded.md", "w").write("\n".join(out) + "\n")
