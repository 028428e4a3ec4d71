#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif after editing the table)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note, technique=technique))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

TECH = "contract-based deductive verification: contracts on the real C++ (compiled to LLVM IR on every run), one obligation per postcondition / loop rule / memory access, discharged by a polynomial normaliser, z3 and cvc5"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Run from /verif. Every check rebuilds its contract harnesses from /repo's working tree. No hooks in /repo are needed."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or TECH, "level": "proof", "level_note": NOTES.get(p["id"]) or "proved for all inputs over the reals; see evidence for assumptions"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
