"""meta/design.in.md + known-findings + seeds + props -> DESIGN.md"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(R, "meta"))
t = open(os.path.join(R, "meta/design.in.md")).read()
kf = json.load(open(os.path.join(R, "known-findings.json")))["findings"]
fixes = "\n".join("| %s | %s | %s |" % (k["commit"], k["property"], k["note"].split(k["commit"], 1)[-1].strip().replace("|", "\\|")) for k in kf if k["status"] == "fixed")
op = "\n".join("* **%s** `%s`: %s" % (k["property"], k["key"], k["note"]) for k in kf if k["status"] == "open") or "none"
seeds = []
for d in sorted(glob.glob(os.path.join(R, "seeded/*"))):
    m = json.load(open(d + "/meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "\\|"), m.get("caught_by", m["property"])))
from props import PROPS
na = "\n".join("* **%s** %s: %s" % (p["id"], p["title"], p["na"]) for p in PROPS if p.get("na")) or "none"
for k, v in (("@@FIXES@@", fixes), ("@@OPEN@@", op), ("@@SEEDS@@", "\n".join(seeds)), ("@@NA@@", na), ("@@MORE@@\n", "")):
    t = t.replace(k, v)
open(os.path.join(R, "DESIGN.md"), "w").write(t)
