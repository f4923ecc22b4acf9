#!/usr/bin/env python3
"""writes the tables of DESIGN.md: planted bugs, refactorings"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
ref = ["%d rewrites, all quiet: %s." % (len(os.listdir(H + "/tools/refactorings")), ", ".join(sorted(x[:-5] for x in os.listdir(H + "/tools/refactorings"))))]
t = open(H + "/DESIGN.md").read()
for k, r in (("seeds", rows), ("refac", ref)):
    t = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, "\n".join(r), k), t, flags=re.S)
open(H + "/DESIGN.md", "w").write(t)
