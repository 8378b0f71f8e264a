#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "props.py")).read(), ns)
lines, checks, na = [], [], []
for p in ns["PROPS"]:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p.get("state") else {}),
                    "hook_needed": None}}, ensure_ascii=False))
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                       "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
man = {"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks, "not_applicable": na,
       "notes": "All checks are static: a rustc driver dumps MIR facts of every workspace crate from /repo's current "
                "source (cached by content hash), and check.py decides one property over those facts."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(lines), "properties;", len(checks), "checks;", len(na), "n/a")
