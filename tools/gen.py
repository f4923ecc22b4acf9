#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the property texts below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

AI = "abstract interpretation of rustc MIR to a fixpoint (string-interval / newline-count domain)"
AI_NOTE = ("Over-approximating abstract interpretation of the MIR of the current tree, for inputs of every length and nesting (no bound, no sampling); "
           "recursive conversions are replaced by the condition under analysis (induction). Operations the domain cannot express are listed in the "
           "evidence as not analysed and raise no alarm; none on the current tree unless DESIGN.md says so. Trusted: rustc's MIR, the std models, the domain.")


def p(id, title, statement, over, q, why, files, mech, observe=(), technique=AI, level="other", note=AI_NOTE, na=None):
    P.append(dict(d={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                     "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}},
                  technique=technique, level=level, note=note))
    if na:
        NA.append({"property": id, "reason": na})


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

for x in P:
    assert len(x["d"]["title"]) <= 80, x["d"]["title"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["d"]) + "\n")
na = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": x["d"]["id"], "quick_cmd": "python3 run.py check %s --tier quick" % x["d"]["id"],
                 "thorough_cmd": "python3 run.py check %s --tier thorough" % x["d"]["id"], "technique": x["technique"],
                 "level": x["level"], "level_note": x["note"]} for x in P if x["d"]["id"] not in na],
     "not_applicable": NA,
     "notes": "No hooks: the checks read the MIR of private items as well. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
