"""Joint abstract interpretation of the evaluator and an HTML backend (sa/absint.py), shared by B01, B02, B03."""
import re
import absint
from mir import short

ADT = {"h": "asciidork_backend_html5s::html5s::Html5s", "d": "asciidork_dr_html_backend::asciidoctor_html::AsciidoctorHtml"}
MARKUP = {"mismatch", "underflow", "lex", "open", "context", "pop", "edit", "loop"}
DEPTH = re.compile(r"depth|level|nest")
LIMIT = {"quick": 700, "thorough": 3000}


def find(P, which):
    if ADT[which] in P.adts:
        return ADT[which]
    crate = ADT[which].split("::")[0]
    for a, d in P.adts.items():
        if d["crate"] == crate and any(t == a for t in backends(P)):
            return a
    return ADT[which]


def backends(P):
    return [i[1] for i in getattr(P, "impls", []) if str(i[0]).endswith("::Backend")] if hasattr(P, "impls") else []


def analyse(P, R, which, tier, limit=None):
    I, outs, fails = absint.analyse(P, find(P, which), procs=8, limit=limit or LIMIT[tier])
    done = {o.root for o in outs}
    failed = sorted({P.fns[j.root].short + ("/%s" % (j.case[0][1][1],) if j.case else "") for j, _ in fails})
    R.count("functions interpreted", len({f for o in outs for f in o.fnseen}))
    R.count("abstract states", sum(o.steps for o in outs))
    R.count("evaluator contracts (inductive hypotheses)", len(done))
    R.count("cases", len(outs))
    R.count("exits checked", sum(o.exits for o in outs))
    R.count("rounds to the fixpoint", I.rounds)
    R.count("cases left undecided", len(fails))
    for j, e in fails:
        R.assumption("left undecided (no verdict either way): %s: %s" % (P.fns[j.root].short, e[:200]))
    for a in sorted({str(a) for o in outs for a in o.assumed}):
        R.assumption("assumed: " + a)
    if not outs:
        raise RuntimeError("no evaluator function analysed")
    return I, outs, failed


def markup(P, R, which, tier):
    I, outs, failed = analyse(P, R, which, tier)
    bad = {}
    for o in outs:
        n = 0
        for (kind, path, detail, root), (p, line, tr, stk) in o.viol.items():
            if kind in MARKUP:
                n += 1
                bad.setdefault("%s:%s:%s" % (kind, short(path), detail), []).append((o, path, line, tr, stk))
        for (kind, detail), tr in o.probs.items():
            if kind in ("lex", "open"):
                n += 1
                bad.setdefault("%s:%s:%s" % (kind, short(o.root), detail), []).append((o, o.root, 0, tr, [short(o.root)]))
        if not n:
            R.ok("%s: %d abstract states, %d exits: markup balanced and complete on every path" % (o.name, o.steps, o.exits))
    report(P, R, bad)


def report(P, R, bad):
    for k, xs in sorted(bad.items()):
        o, path, line, tr, stk = min(xs, key=lambda x: (len(x[3]), x[0].name))
        fn = P.fns[path]
        R.bad(k, "%s:%d in %s: %s\n    while rendering: %s\n    calls: %s\n    path: %s" % (
            fn.file, line or fn.line, fn.short, k, ", ".join(sorted({x[0].name for x in xs})[:6]), " > ".join(stk[-7:]), "; ".join(tr[-12:])))


def leaf_type(P, adt, path):
    for n in path:
        d = P.adts.get(adt) or (P.adts.get((P.adt_by_name.get(absint.strip_generics(adt).split("::")[-1]) or [None])[0]))
        if not d or len(d["variants"]) != 1:
            return ""
        for f in d["variants"][0][2]:
            if f[0] == n:
                adt = d["types"][f[1]] if isinstance(f[1], int) else f[1]
                break
        else:
            return ""
    return adt


def state(P, R, tier):
    for which, name in (("h", "html5s"), ("d", "dr-html")):
        I, outs, failed = analyse(P, R, which, tier, LIMIT[tier] / 2)
        once = set().union(*[o.consumed for o in outs]) if outs else set()
        reads = set().union(*[o.reads for o in outs]) if outs else set()
        bad = {}
        for o in outs:
            n = 0
            for (kind, path, detail, root), (p, line, tr, stk) in o.viol.items():
                if kind == "buffer":
                    n += 1
                    bad.setdefault("buffer:%s:%s:%s" % (name, short(path), detail), []).append((o, path, line, tr, stk))
            for (kind, detail), tr in o.probs.items():
                if kind in ("swapped", "alt"):
                    n += 1
                    bad.setdefault("%s:%s:%s" % (kind, name, short(o.root)), []).append((o, o.root, 0, tr, [short(o.root)]))
            if o.root not in I.entry:
                for (path, elem, val, decl), tr in o.direct.items():
                    if not leak(P, I, which, path, elem, val, decl, once, reads):
                        continue
                    n += 1
                    leaf = ".".join(path) + ("[%s]" % elem if elem else "")
                    bad.setdefault("leak:%s:%s:%s" % (name, short(o.root), leaf), []).append(
                        (o, o.root, 0, ["afterwards %s = %s" % (leaf, val)] + tr, [short(o.root)]))
            if not n:
                R.ok("%s %s: output buffer, pending buffer and %d state fields restored at all %d exits" % (
                    name, o.name, sum(1 for _ in I.modsets[o.root]) if o.root in I.modsets else 0, o.exits))
        report(P, R, bad)


def leak(P, I, which, path, elem, val, decl, once, reads):
    if decl:
        return False            # an attribute declaration is there to have an effect on what follows
    if elem is not None:
        return elem in reads and not (val == "False" and (path, elem) in once)
    ty = leaf_type(P, find(P, which), path)
    if re.match(r"^(\[)?[iu](8|16|32|64|128|size)\b", ty):
        return bool(DEPTH.search(path[-1])) or bool(re.search(r"-\d+$", val))
    if "num" in path[-1] and "Vec" not in ty and "Set" not in ty and ty != "bool":
        return False            # numbering is meant to go on
    return True
