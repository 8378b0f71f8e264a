#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source.
exit 0 = holds on everything analysed, exit 1 = VIOLATION line printed."""
import importlib, json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa"))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    import facts, common
    from mir import prog, MissingAnchor
    try:
        P = prog()
    except facts.BuildError as e:
        print("ERROR: cannot analyse /repo: %s" % e)
        return 2
    mod = importlib.import_module("rules." + pid.lower())
    R = common.Report(pid)
    try:
        mod.run(P, R, tier)
    except MissingAnchor as e:
        R.bad("anchor", "a construct the rule is anchored on is missing, so the property is not decided: %s" % e)
    except Exception as e:
        from engine import Budget
        if isinstance(e, Budget):
            R.bad("budget", "analysis budget exhausted, property not decided: %s" % e)
        else:
            traceback.print_exc()
            R.bad("internal", "the analysis failed on the current source: %r" % e)
    known = {}
    for k in common.load_known():
        if k["property"] == pid and k.get("status", "open") == "open":
            known[k["key"]] = k
    new = [(k, m) for k, m in R.violations if k not in known]
    old = [(k, m) for k, m in R.violations if k in known]
    level = getattr(mod, "LEVEL", "proof")
    n = len(R.obl) + len(R.violations)
    cov = {"rules": R.rules, "counts": R.counts,
           "facts": {"crates": len(P.crates), "functions_with_mir": sum(1 for f in P.fns.values() if not f.promoted),
                     "source_hash": P.info["source_hash"], "source_files": P.info["source_files"]},
           "samples": R.obl[:25],
           "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or "").strip()}
    if level == "proof":
        cov.update(obligations=n, discharged=len(R.obl),
                   checker_cmd="python3 check.py %s" % pid,
                   trusted_base=["rustc nightly MIR construction and trait resolution", "sa/driver.rs fact dump",
                                 "sa/mir.py + sa/engine.py path exploration", "sa/rules/%s.py" % pid.lower()] + R.trusted)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": R.assume, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations over %s, %d discharged, %d open (%.1fs)" % (
        pid, n, ", ".join("%d %s" % (v, k) for k, v in sorted(R.counts.items())) or "-", len(R.obl),
        len(R.violations), time.time() - t0))
    for k, m in old:
        print("KNOWN-FINDING: property=%s %s -- %s" % (pid, k, m))
    if new:
        rp = os.path.join(evd, pid + ".violations.txt")
        with open(rp, "w") as f:
            for r in R.rules:
                f.write("rule: %s\n" % r)
            for k, m in new:
                f.write("\n[%s]\n%s\n" % (k, m))
        for k, m in new[:20]:
            print("  [%s] %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
