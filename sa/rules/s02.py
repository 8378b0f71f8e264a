"""In secure mode the parser asks its host for no other file.

Sinks are every call of the resolver trait's `resolve` (include directives,
docinfo, inline svg / data-uri images / admonition icons).  On every path from
every entry to a sink the safe mode was tested and is not Secure, or the
`data-uri` attribute tested true.  The latter is accepted only because the
lockdown that pins `data-uri` to a read-only false runs, in secure mode, before
anything that can reach a sink; that is checked too, and so is that nothing
changes the safe mode after construction."""
import gates
from common import where, strs, expr_any
from mir import short
from engine import Explorer, Spec
from rules.policy import *
from rules import attrs

ATTR = "data-uri"


def run(P, R, tier):
    R.rule("must-pass-through: resolver.resolve <= safe_mode != Secure OR is_true(\"data-uri\")")
    R.rule("must-precede: in secure mode a read-only job attribute data-uri=false is inserted before parsing starts")
    R.rule("who-may-write: DocumentMeta.safe_mode is assigned only in constructors")
    sinks = resolver_sinks(P, R)

    def key(fr, e, kind):
        k = mode_fact(P, e, kind)
        if k:
            return k
        if kind == "bool" and attr_true(e, ATTR):
            return "DATA_URI"
        return None

    direct = mode_testers(P)
    for fn in P.bodies():
        if any(t[1][0] == "fn" and attr_true(fn.sym_call(t), ATTR) for bi, t in fn.calls()):
            direct.add(fn.path)
    R.count("functions testing the policy", len(direct))
    helpers = gates.helper_set(P, direct, sinks)

    def mk(sub):
        def is_sink(fr, t, names, args):
            if sub is None:
                return "resolve" if names[1] == "IncludeResolver::resolve" else None
            if sub in P.callees(names[2]) or any(a[0] == "closure" and a[1] == sub for a in args):
                return sub
            return None

        def gated(fr, t, names, args, facts):
            return "Secure" not in possible_modes(facts) or facts.get("DATA_URI") is True

        def sink_like(fn, t):
            if sub is None:
                return t[1][0] == "fn" and short(t[1][1]) == "IncludeResolver::resolve"
            if sub in P.callees(t[1]):
                return True
            return P.fns[sub].kind == "Closure" and expr_any(
                fn.sym_call(t), lambda e: e[0] == "closure" and e[1] == sub)
        return gates.GateSpec(P, is_sink, key, gated, helpers, sink_like)

    for chain in gates.open_paths(P, sinks, mk, R, lambda f: f.path in direct or any(
            c[0] in helpers for c in P.callgraph()[f.path])):
        fn, line = chain[-1]
        R.bad("secure-gate:" + fn.short,
              "in secure mode a file can be requested from the resolver; path: %s" %
              " -> ".join(where(f, l) for f, l in chain))
    R.floor("resolver call sites", 1)
    R.floor("functions testing the policy", 1)

    # lockdown before parsing
    rev = P.rev()
    reach_sink = set()
    st = list(sinks)
    while st:
        p = st.pop()
        if p in reach_sink:
            continue
        reach_sink.add(p)
        st += list(rev.get(p, ()))
    lock_fns = set()
    for fn in P.bodies():
        for bi, t in fn.calls():
            if t[1][0] == "fn" and pins(fn.sym_call(t)):
                lock_fns.add(fn.path)
                R.count("lockdown insertions", 1)
    R.floor("lockdown insertions", 1)
    carriers = set(lock_fns)
    for p in list(lock_fns):
        for c in rev.get(p, ()):
            carriers.add(c)
    roots = []
    for p in sorted(reach_sink):
        f = P.fns.get(p)
        if f is None or f.crate != "asciidork_parser" or f.kind == "Closure":
            continue
        callers = rev.get(p, ())
        if not callers or any(P.fns[c].crate != "asciidork_parser" for c in callers):
            roots.append(f)
    R.count("public parser entries reaching a resolver", len(roots))
    R.floor("public parser entries reaching a resolver", 1)
    for fn in roots:
        S = LockSpec(P, reach_sink, lock_fns)
        ex = Explorer(S, P)
        ex.run(fn, [("arg", i + 1, fn.lname(i + 1) or "_") for i in range(fn.argc)], (0, frozenset()))
        for line, callee in sorted(set(S.bad))[:3]:
            R.bad("lockdown:%s:%s" % (fn.short, callee),
                  "%s can read files in secure mode before `data-uri` is pinned to false: call of %s at %s" % (
                      fn.short, callee, where(fn, line)))
        if not S.bad:
            R.ok("%s pins data-uri=false in secure mode before any of its %d call(s) that can reach a resolver" % (
                fn.short, S.n))

    # safe_mode writers
    for fn in P.bodies():
        for b in fn.blocks:
            for pl, rv, ln in b["s"]:
                if len(pl) > 1 and any(p[0] == "f" and p[1] == "safe_mode" and "DocumentMeta" in p[2] for p in pl[1:]
                                       if p != "*"):
                    R.bad("safe-mode-write:" + fn.short, "safe_mode is changed after construction at " + where(fn, ln))
    R.ok("no assignment to an existing DocumentMeta.safe_mode")
    # the pin holds: read-only job values win, and nothing removes it
    attrs.precedence(P, R)
    attrs.job_writes(P, R)
    order = safe_order(P)
    R.check(order == SAFE_ORDER, "mode-order", "SafeMode is ordered Unsafe < Safe < Server < Secure (comparisons with >, >= rely on it)")


def pins(e):
    """insert_job_attr("data-uri", JobAttr::readonly(false))"""
    if not (e[0] == "call" and "insert_job_attr" in e[1] or e[0] == "call" and e[1].startswith("JobAttrs::insert")):
        return False
    if ("k", ATTR) not in e[2]:
        return False
    for a in e[2]:
        if a[0] == "call" and a[1] == "JobAttr::readonly" and a[2][0] in (("k", False),):
            return True
        if a[0] == "adt" and a[1] == "JobAttr" and a[3] and ("k", True) in a[3]:
            return True
    return False


class LockSpec(Spec):
    def __init__(self, P, reach, lock_fns):
        self.P, self.reach, self.lock, self.bad, self.n = P, reach, lock_fns, [], 0

    def track(self, fr, e, kind):
        return mode_fact(self.P, e, kind)

    def descend(self, path):
        return path in self.lock

    def interesting(self, fn, bi, b):
        t = b["t"]
        if t[0] != "call":
            return False
        return pins(fn.sym_call(t)) or any(c in self.reach or c in self.lock for c in self.P.callees(t[1]))

    def call(self, fr, bi, t, names, args, st):
        if pins(("call", names[0], args, names[1])):
            return [((1, st[1]), None)]
        cs = self.P.callees(names[2])
        if any(c in self.reach for c in cs) and not any(c in self.lock for c in cs):
            self.n += 1
            if st[0] == 0 and "Secure" in possible_modes(dict(st[1])):
                self.bad.append((t[5], names[0]))
        return None

