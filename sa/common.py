"""Reporting, floors, known findings, helpers shared by the rules."""
import json, os, time
from mir import prog, short, MissingAnchor
import facts

VERIF = facts.VERIF


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []     # (key, text)
        self.obl = []            # discharged obligations (text)
        self.counts = {}
        self.assume = []
        self.rules = []
        self.trusted = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, what):
        self.obl.append(what)

    def bad(self, key, text):
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))

    def check(self, cond, key, text):
        if cond:
            self.ok(text if isinstance(text, str) else key)
        else:
            self.bad(key, text)
        return cond

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        """fail closed when fewer instances are found than were confirmed by hand"""
        n = self.counts.get(name, 0)
        if n < minimum:
            self.bad("floor:" + name,
                     "only %d instance(s) of `%s` found in the current tree; %d were confirmed when the rule was "
                     "written - the rule's anchors no longer match the code, so nothing is decided" % (n, name, minimum))

    def assumption(self, t):
        self.assume.append(t)


def where(fn, line):
    return "%s:%d (%s)" % (fn.file, line, fn.short)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def expr_any(e, pred):
    if not isinstance(e, tuple):
        return False
    if e and isinstance(e[0], str) and pred(e):
        return True
    return any(expr_any(x, pred) for x in e if isinstance(x, tuple))


def deep_any(fn, e, pred, seen=None):
    """like expr_any, through the definitions of the local variables in e"""
    seen = set() if seen is None else seen
    if expr_any(e, pred):
        return True
    vs = []
    expr_any(e, lambda x: x[0] == "var" and len(x) > 2 and vs.append(x[2]))
    for l in vs:
        if l in seen:
            continue
        seen.add(l)
        for d in fn.defs().get(l, ()):
            if d[2] == "rv":
                x = fn.sym_rv(d[3])
            elif d[2] == "call":
                x = fn.sym_call(d[3])
            else:
                continue
            if deep_any(fn, x, pred, seen):
                return True
    return False


def strs(e, out=None):
    """all string constants inside an expression"""
    out = [] if out is None else out
    if isinstance(e, tuple):
        if len(e) >= 2 and e[0] == "k" and isinstance(e[1], str):
            out.append(e[1])
        else:
            for x in e:
                strs(x, out)
    return out


def iter_array(fn, e, d=0):
    """elements of the array literal that an iterator expression walks, or None"""
    if d > 10:
        return None
    if e[0] == "array":
        return list(e[1])
    if e[0] in ("ref", "cast"):
        return iter_array(fn, e[1], d + 1)
    if e[0] == "call" and e[2] and e[1].split("::")[-1] in ("into_iter", "iter", "iter_mut", "copied", "cloned", "by_ref", "deref", "as_slice"):
        return iter_array(fn, e[2][0], d + 1)
    if e[0] == "var" and len(e) > 2 and (len(e) < 4 or e[3] == fn.short):
        defs = [fn.sym_rv(rv) for b in fn.blocks for pl, rv, ln in b["s"] if pl == [e[2]] and rv[0] != "dead"]
        defs += [fn.sym_call(b["t"]) for b in fn.blocks if b["t"][0] == "call" and b["t"][3] == [e[2]] and b["t"][1][0] == "fn"]
        if len(defs) == 1 and defs[0] != e:
            return iter_array(fn, defs[0], d + 1)
    return None


def loop_elems(fn, e):
    """values that an expression projected out of `for x in [a, b, c]` takes, in order, or None"""
    proj = []
    while e and e[0] in ("field", "as", "ref"):
        proj.append(e)
        e = e[1]
    if not (e and e[0] == "call" and e[1].split("::")[-1] == "next" and e[2]):
        return None
    el = iter_array(fn, e[2][0])
    if el is None:
        return None
    proj.reverse()
    if len(proj) < 2 or proj[0][0] != "as" or proj[1][0] != "field":
        return None
    out = []
    for v in el:
        for q in proj[2:]:
            if q[0] == "field" and v[0] in ("tuple", "array") and str(q[2]).isdigit() and int(q[2]) < len(v[1]):
                v = v[1][int(q[2])]
            elif q[0] != "ref":
                return None
        out.append(v)
    return out
