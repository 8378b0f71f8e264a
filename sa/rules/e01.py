"""The evaluator drives every backend with properly nested enter/exit calls.

Pushdown typestate over the evaluator's MIR: an `enter_x(..)` call on a backend
pushes (x, backend, arguments), the matching `exit_x` must pop exactly that
entry.  Every evaluator function has to be neutral (stack unchanged on every
path, loops and closures included); recursion uses that as induction hypothesis."""
from common import where
from engine import Explorer, Spec
from mir import fmt, MissingAnchor

BAD = "bad"


def pairs(P):
    for t in P.traits:
        if t["path"].endswith("::Backend") and "backend" in t["path"]:
            ms = set(x[0].split("::")[-1] for x in t["items"])
            return t["path"], {m[6:] for m in ms if m.startswith("enter_") and "exit_" + m[6:] in ms}, ms
    raise MissingAnchor("trait Backend")


class S(Spec):
    max_states = 200000

    def __init__(self, P, pr, neutral, scope):
        self.P, self.pr, self.neutral, self.scope = P, pr, neutral, scope
        self.errs, self.n = [], 0
        self.root = None

    def track(self, fr, e, kind):
        if kind == "bool":
            if e[0] == "isvar":
                return e
            if e[0] in ("call", "field", "arg", "eq"):
                return ("b", e)
            return None
        if kind == "discr" and e[2] in ("Option",):
            return ("d", e[1])
        return None

    def learn(self, facts, key, v):
        d = dict(facts)
        # one vocabulary for `is_some()` tests and Option matches
        if key[0] == "isvar" and set(key[2]) <= {"Some", "None"}:
            k2 = ("d", key[1])
            want = frozenset(key[2]) if v else frozenset({"Some", "None"}) - frozenset(key[2])
            if k2 in d and not (d[k2] & want):
                return None
            return facts | {(key, v), (k2, want)} if k2 not in d else facts | {(key, v)}
        if key[0] == "d":
            for w in ("Some", "None"):
                k = ("isvar", key[1], (w,))
                if k in d:
                    want = frozenset((w,)) if d[k] else frozenset({"Some", "None"}) - {w}
                    if not (want & v):
                        return None
        return facts | {(key, v)}

    def descend(self, path):
        return path in self.scope and path not in self.neutral or path in self.scope and self.P.fns[path].kind == "Closure"

    def recursion(self, fr, path, args, st):
        if path not in self.neutral and path != self.root:
            self.errs.append((fr.fn, fr.fn.line, "recursive call of the non-neutral function %s" % self.P.fns[path].short))
        return [(st, None)]

    def call(self, fr, bi, t, names, args, st):
        nm = names[1] or ""
        if not nm.startswith("Backend::"):
            return None
        m = nm[9:]
        auto, facts = st
        if m.startswith("enter_") and m[6:] in self.pr:
            self.n += 1
            if len(auto) > 12:
                self.err(fr, t, "enter_%s is repeated without its exit" % m[6:])
                return []
            auto = auto + ((m[6:], args),)
        elif m.startswith("exit_") and m[5:] in self.pr:
            self.n += 1
            if not auto:
                self.err(fr, t, "%s without a preceding enter_%s" % (m, m[5:]))
                return []
            x, a = auto[-1]
            if x != m[5:]:
                self.err(fr, t, "%s while enter_%s is the innermost open construct" % (m, x))
                return []
            if not same(a, args):
                self.err(fr, t, "exit_%s(%s) does not repeat the arguments of enter_%s(%s)" % (
                    x, ", ".join(fmt(y) for y in args[1:]), x, ", ".join(fmt(y) for y in a[1:])))
                return []
            auto = auto[:-1]
        else:
            # visit_*, producers and unpaired notifications: no nesting effect; forked results stay free
            return [((auto, facts), self.rv(fr, t, names, args))]
        return [((auto, facts), self.rv(fr, t, names, args))]

    def rv(self, fr, t, names, args):
        return None

    def err(self, fr, t, m):
        self.errs.append((fr.fn, t[5], m))

    def at_return(self, fr, rv, st):
        if fr.fn.path == self.root and st[0]:
            self.errs.append((fr.fn, fr.fn.line, "a path returns with enter_%s not exited" % st[0][-1][0]))
            return None
        return st


class X(Explorer):
    """branch facts learned inside a callee or closure do not outlive it"""

    def enter(self, fr, path, args, st):
        return list({(r, (s[0], st[1])) for r, s in super().enter(fr, path, args, st)})


def same(a, b):
    """exit may take fewer arguments (a prefix or subset in order) than enter"""
    i = 0
    for y in b:
        while i < len(a) and a[i] != y:
            i += 1
        if i == len(a):
            return False
        i += 1
    return True


def run(P, R, tier):
    R.rule("typestate: enter_x pushes, exit_x pops the same x on the same backend with the same arguments; "
           "every evaluator function and loop body is stack-neutral on every path")
    tr, pr, ms = pairs(P)
    # all functions outside backend implementations that call the trait's methods
    users = set()
    for fn in P.bodies():
        for bi, t in fn.calls():
            if t[1][0] == "fn" and t[1][1].startswith(tr + "::") and t[1][2] is None or \
                    t[1][0] == "fn" and t[1][1].startswith(tr + "::") and t[1][2] == t[1][1]:
                m = t[1][1].split("::")[-1]
                if m.startswith(("enter_", "exit_")):
                    users.add(fn.path)
                    R.count("enter/exit call sites", 1)
    R.floor("enter/exit call sites", 60)
    scope = set(users)
    rev = P.rev()
    # functions of the same crates that lead to them, and their closures
    crates = {P.fns[u].crate for u in users}
    st = list(users)
    while st:
        x = st.pop()
        for c in rev.get(x, ()):
            if c in P.fns and P.fns[c].crate in crates and c not in scope:
                scope.add(c)
                st.append(c)
    neutral = {p for p in scope if P.fns[p].kind != "Closure"}
    details = {}
    cg = P.callgraph()
    rec = set()
    for p in neutral:
        nxt = {x[0] for x in cg[p]}
        if p in P.reach(nxt):
            rec.add(p)
    broken = set()
    while True:
        drop = set()
        for p in sorted(neutral):
            fn = P.fns[p]
            s = S(P, pr, neutral - {p}, scope)
            s.root = p
            X(s, P).run(fn, [("arg", i + 1, fn.lname(i + 1) or "_%d" % i) for i in range(fn.argc)], ((), frozenset()))
            if s.errs:
                details.setdefault(p, s.errs)
                (broken if p in rec else drop).add(p)
        if not drop:
            break
        # inline the innermost halves first; their callers are judged again afterwards
        leaf = {p for p in drop if not (P.reach({x[0] for x in cg[p]}) & (drop - {p}))}
        neutral -= leaf or drop
    bad = [p for p in scope if P.fns[p].kind != "Closure" and (p not in neutral or p in broken)]
    inlined = set()
    for p in bad:
        callers = {c for c in rev.get(p, ()) if c in scope}
        callers = {c if P.fns[c].kind != "Closure" else owner(P, c) for c in callers}
        if p not in broken and callers and all(c in neutral for c in callers) and not P.fns[p].pub:
            inlined.add(p)       # a half (enter-only / exit-only helper), balanced by each of its callers
    for p in sorted(bad):
        if p in inlined:
            R.ok("%s: balanced within each caller" % P.fns[p].short)
            continue
        for fn, ln, m in details[p][:3]:
            R.bad("pairing:%s:%s" % (P.fns[p].short, m), "%s: %s" % (where(fn, ln), m))
    for p in sorted(neutral - broken):
        R.ok("%s: neutral on every path" % P.fns[p].short)
    R.count("evaluator functions", len(scope))
    R.count("construct kinds with enter/exit pair", len(pr))
    R.floor("construct kinds with enter/exit pair", 40)
    used = set()
    for u in users:
        for bi, t in P.fns[u].calls():
            if t[1][0] == "fn" and t[1][1].startswith(tr + "::"):
                used.add(t[1][1].split("::")[-1])
    for x in sorted(pr):
        R.check(("enter_" + x in used) == ("exit_" + x in used), "half-driven:" + x,
                "%s: the evaluator drives both halves or neither" % x)


def owner(P, c):
    while P.fns[c].kind == "Closure" and P.fns[c].parent in P.fns:
        c = P.fns[c].parent
    return c
